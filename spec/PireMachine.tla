---------------------------- MODULE PireMachine ----------------------------
(* The specified system: a machine with registers for automata (F), scanners *)
(* (S) and byte buffers (B), and one action per public operation of Pire.    *)
(* The abstract value of an automaton is its language; that of a scanner is  *)
(* its kind and the sequence of its regexps (nothing for an empty scanner);  *)
(* that of a buffer the sequence of scanner values stored in it.             *)
(*                                                                           *)
(* This module defines the effect of every operation as a function of the    *)
(* abstract state; PireGen explores the machine on its own to produce        *)
(* histories, PireTrace follows it along histories recorded from the code.   *)
EXTENDS Chain, Capture, SequencesExt

Elems(s) == {s[i] : i \in 1..Len(s)}

\* ---- registers
Get(f, r, dflt) == IF r \in DOMAIN f THEN f[r] ELSE dflt
Put(f, r, v) == (r :> v) @@ f
Drop(f, R) == [x \in DOMAIN f \ R |-> f[x]]

\* ---- automata: the language after operation op (a sequence, op[2] its name, op[3] the register)
FsmVal(F, r) == Get(F, r, Eps)
RECURSIVE AltStrs(_, _)
AltStrs(op, i) == IF i > Len(op) THEN {} ELSE {Str(op[i])} \cup AltStrs(op, i + 1)

\* an automaton given by its table: op[4] states, initial state op[5], transitions op[6] (from, to, letter; 257: none), final states op[7],
\* transitions taken away again op[8] (999: for all letters)
RECURSIVE Triples(_)
Triples(s) == IF s = <<>> THEN {} ELSE {<<s[1], s[2], s[3]>>} \cup Triples(SubSeq(s, 4, Len(s)))
RawLang(op) ==
  LET n == op[4]
      Q == 0..(n - 1)
      gone == Triples(op[8])
      edges == {e \in Triples(op[6]) : ~\E g \in gone : g[1] = e[1] /\ g[2] = e[2] /\ g[3] \in {999, e[3]}}
      one(e) == IF e[3] = 257 THEN Eps ELSE Ch(e[3])
      R0 == TLCEval([p \in Q \X Q |-> Alt({one(e) : e \in {x \in edges : x[1] = p[1] /\ x[2] = p[2]}} \cup (IF p[1] = p[2] THEN {Eps} ELSE {}))])
      via(R, k) == TLCEval([p \in Q \X Q |-> Alt({R[p], Cat(R[<<p[1], k>>], Cat(Star(R[<<k, k>>]), R[<<k, p[2]>>]))})])
      RR == FoldLeft(LAMBDA R, k : via(R, k - 1), R0, [k \in 1..n |-> k])
  IN Alt({RR[<<op[5], q>>] : q \in Elems(op[7])})

FsmOp(F, op) ==
  LET x == FsmVal(F, op[3])
      y == FsmVal(F, op[4])
      z == FsmVal(F, op[5])
      n == op[2]
  IN CASE n = "new"       -> Eps
       [] n = "false"     -> None
       [] n = "raw"       -> RawLang(op)
       [] n = "copy"      -> y
       [] n = "assign"    -> y
       [] n = "ch"        -> Cat(x, Ch(op[4]))
       [] n = "str"       -> Cat(x, Str(op[4]))
       [] n = "strs"      -> Cat(x, Alt(AltStrs(op, 4)))
       [] n = "dot"       -> Cat(x, DotSym)
       [] n = "special"   -> Cat(x, Ch(op[4]))
       [] n = "cat"       -> Cat(x, y)
       [] n = "or"        -> Alt({x, y})
       [] n = "and"       -> And({x, y})
       [] n = "cat3"      -> Cat(y, z)
       [] n = "or3"       -> Alt({y, z})
       [] n = "and3"      -> And({y, z})
       [] n = "star"      -> Star(x)
       [] n = "star2"     -> Star(y)
       [] n = "not"       -> Not(x)
       [] n = "not2"      -> Not(y)
       [] n = "mul"       -> Power(x, op[4])
       [] n = "mul3"      -> Power(y, op[5])
       [] n = "surround"  -> Surrounded(x)
       [] n = "surround2" -> Surrounded(y)
       [] n = "prepany"   -> Cat(Top, x)
       [] n = "appany"    -> Cat(x, Top)
       [] n = "rev"       -> Rev(x)
       [] n = "prefix"    -> PrefixesOf(x)
       [] n = "suffix"    -> SuffixesOf(x)
       [] n = "import"    -> Alt({x, y})
       [] n = "approx"    -> Approx(x, op[4])
       [] n \in {"rmeps", "rmdead", "det", "min", "canon", "sparse", "unsparse"} -> x

\* ---- scanners
Scanner(t, cs) == [t |-> t, cs |-> cs, known |-> TRUE]
Unknown(t) == [t |-> t, cs |-> <<>>, known |-> FALSE]

MultiKinds == {"S", "N", "SM", "NM"}
CountKinds == {"C", "A", "G"}
HalfKinds == {"H", "HN", "HM", "HNM"}
\* kinds whose stored form carries the same header
Header(t) ==
  CASE t \in {"S", "N", "H", "HN"} -> "multi"
    [] t \in {"SM", "NM", "HM", "HNM"} -> "multi-nomask"
    [] t = "I" -> "simple"
    [] t \in {"W", "KS"} -> "slow"
    [] t \in {"C", "A", "K"} -> "loaded"
    [] t = "G" -> "noglue"
\* kinds which restore each other's data
SameForm(t, u) == t = u \/ (t = "G" /\ u = "A") \/ ({t, u} \subseteq {"S", "N"}) \/ ({t, u} \subseteq {"SM", "NM"}) \/ ({t, u} \subseteq {"H", "HN"}) \/ ({t, u} \subseteq {"HM", "HNM"})

\* the unlimited counting scanner also reads the data of other loaded ones
Refused(t, u) == Header(t) # Header(u) /\ ~(t = "G" /\ Header(u) = "loaded")

Final(sp) == \E i \in 1..Len(sp) : sp[i][2]
AcceptedBy(sp) == {i \in 1..Len(sp) : sp[i][2]}
StepC(a, x) == IF x[1] = "greedy" THEN GreedyStep(a, x) ELSE D(a, x)
StepAll(a, sp) == TLCEval([i \in 1..Len(sp) |-> StepC(a, sp[i])])
\* what the regexps of a half-final scanner add to their counters in the state reached
Counts(sp) == [i \in 1..Len(sp) |-> IF sp[i][1] = "greedy" THEN sp[i][6] ELSE IF sp[i][2] THEN 1 ELSE 0]
RunAll(w, sp) == FoldLeft(LAMBDA x, a : StepAll(a, x), sp, w)
=============================================================================
