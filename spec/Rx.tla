------------------------------- MODULE Rx -------------------------------
(* Languages over Pire's letters, as regular expressions with derivatives.   *)
(* This is the specification's notion of "a language": every automaton and   *)
(* every scanner register of the specified machine holds one of these.       *)
(*                                                                           *)
(* A letter is a byte 0..255, the begin-of-text mark 258 or the end mark     *)
(* 259.  A set of letters is a set of closed intervals <<lo, hi>>.           *)
(* A node is <<tag, nullable, arguments...>>; nodes are built only through   *)
(* the smart constructors below, which keep them in a normal form (modulo    *)
(* associativity, commutativity and idempotence) in which every language has *)
(* finitely many derivatives.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

BeginMark == 258
EndMark   == 259
AnyByte   == {<<0, 255>>}
AnyLetter == {<<0, 255>>, <<258, 259>>}

In(a, S) == \E iv \in S : iv[1] <= a /\ a <= iv[2]

None == <<"none", FALSE>>
Eps  == <<"eps", TRUE>>
Top  == <<"not", TRUE, None>>            \* all texts, marks included
Nu(r) == r[2]

Sym(S) == IF S = {} THEN None ELSE <<"set", FALSE, S>>
Ch(c)  == <<"set", FALSE, {<<c, c>>}>>
AnySym == Sym(AnyLetter)
DotSym == Sym(AnyByte)

RECURSIVE Cat(_, _)
Cat(r, s) ==
  IF r = None \/ s = None THEN None
  ELSE IF r = Eps THEN s
  ELSE IF s = Eps THEN r
  ELSE IF r[1] = "cat" THEN Cat(r[3], Cat(r[4], s))
  ELSE IF r = Top /\ (s = Top \/ (s[1] = "cat" /\ s[3] = Top)) THEN s
  ELSE <<"cat", r[2] /\ s[2], r, s>>

AltOf(x) == IF x[1] = "alt" THEN x[3] ELSE {x}
Alt(X) ==
  LET U0   == UNION {AltOf(x) : x \in X} \ {None}
      sets == {x \in U0 : x[1] = "set"}
      U1   == IF Cardinality(sets) <= 1 THEN U0
              ELSE (U0 \ sets) \cup {<<"set", FALSE, UNION {x[3] : x \in sets}>>}
      U    == IF Eps \in U1 /\ \E x \in U1 \ {Eps} : x[2] THEN U1 \ {Eps} ELSE U1
  IN IF Top \in U THEN Top
     ELSE IF U = {} THEN None
     ELSE IF Cardinality(U) = 1 THEN CHOOSE x \in U : TRUE
     ELSE <<"alt", \E x \in U : x[2], U>>

AndOf(x) == IF x[1] = "and" THEN x[3] ELSE {x}
And(X) ==
  LET U == UNION {AndOf(x) : x \in X} \ {Top}
  IN IF None \in U THEN None
     ELSE IF Eps \in U THEN (IF \A x \in U : x[2] THEN Eps ELSE None)
     ELSE IF U = {} THEN Top
     ELSE IF Cardinality(U) = 1 THEN CHOOSE x \in U : TRUE
     ELSE <<"and", \A x \in U : x[2], U>>

Not(r) == IF r[1] = "not" THEN r[3] ELSE <<"not", ~r[2], r>>

Star(r) ==
  IF r = None \/ r = Eps THEN Eps
  ELSE IF r[1] = "star" \/ r = Top THEN r
  ELSE IF r = AnySym THEN Top
  ELSE LET b == IF r[1] = "alt" THEN Alt(r[3] \ {Eps}) ELSE r
       IN IF b[1] = "star" THEN b ELSE <<"star", TRUE, b>>

Plus(r) == Cat(r, Star(r))
Opt(r)  == Alt({r, Eps})
RECURSIVE Power(_, _)
Power(r, n) == IF n = 0 THEN Eps ELSE Cat(r, Power(r, n - 1))
(* r{lo,hi} without an explosion of alternatives: r^lo (r(r(...)?)?)?        *)
RECURSIVE UpTo(_, _)
UpTo(r, n) == IF n = 0 THEN Eps ELSE Opt(Cat(r, UpTo(r, n - 1)))
Repeat(r, lo, hi) ==       \* hi = -1: unbounded
  IF hi = -1 THEN Cat(Power(r, lo), Star(r)) ELSE Cat(Power(r, lo), UpTo(r, hi - lo))

RECURSIVE Str(_)
Str(s) == IF s = <<>> THEN Eps ELSE Cat(Ch(s[1]), Str(Tail(s)))

Surrounded(r) == Cat(Top, Cat(r, Top))

---------------------------------------------------------------------------
(* Derivative: D(a, r) = { w : a w in r }                                    *)
(*                                                                           *)
(* Two node kinds have their derivatives defined through whole languages:    *)
(* "pre": the prefixes of a language (kept only for "and" and "not", see     *)
(* PrefixesOf);                                                              *)
(* "apx": the texts obtained from a language by at most k edits - insertion, *)
(* deletion or substitution of a letter, or exchange of two neighbouring     *)
(* letters; its argument is a set of configurations <<r, k, c>>: r is what   *)
(* remains of the original text, k the edits still allowed, and c is -1, or  *)
(* the second of two exchanged letters, already seen, whose partner is next. *)
RECURSIVE D(_, _)
RECURSIVE NonEmpty(_)
RECURSIVE Deleted(_, _)
RECURSIVE SetsOf(_)
RECURSIVE Closure(_, _, _)

\* starting points of the pieces into which sets of intervals cut the alphabet
Cuts(sets) ==
  LET ends == UNION {UNION {{iv[1], iv[2] + 1} : iv \in S} : S \in sets}
  IN {c \in ends \cup {0, BeginMark, EndMark} : c <= 255 \/ c = BeginMark \/ c = EndMark}

\* ... reduced to one for every combination of the sets
AtomsOf(r) ==
  LET sets == SetsOf(r)
      cs == Cuts(sets)
      sg == TLCEval([c \in cs |-> {S \in sets : In(c, S)}])
  IN {c \in cs : ~\E b \in cs : b < c /\ sg[b] = sg[c]}

Derivs(r, letters) == {D(a, r) : a \in letters}

Deleted(X, todo) ==     \* X closed under deletion of letters of the original text
  IF todo = {} THEN X
  ELSE LET more == UNION {{<<d, x[2] - 1, -1>> : d \in Derivs(x[1], AtomsOf(x[1])) \ {None}}
                          : x \in {y \in todo : y[2] > 0 /\ y[3] = -1}} \ X
       IN Deleted(X \cup more, more)

Apx(X0) ==
  LET X1 == {x \in X0 : x[1] # None}
      X2 == Deleted(X1, X1)
      X  == {x \in X2 : ~\E y \in X2 : y[1] = x[1] /\ y[3] = x[3] /\ y[2] > x[2]}
  IN IF X = {} THEN None ELSE <<"apx", \E x \in X : x[3] = -1 /\ x[1][2], X>>
Approx(r, k) == IF k = 0 THEN r ELSE Apx({<<r, k, -1>>})

ApxStep(a, x) ==
  LET r == x[1]  k == x[2]  c == x[3]
  IN IF c # -1 THEN {<<D(c, D(a, r)), k, -1>>}
     ELSE {<<D(a, r), k, -1>>}
          \cup (IF k = 0 THEN {}
                ELSE {<<r, k - 1, -1>>, <<r, k - 1, a>>}
                     \cup {<<d, k - 1, -1>> : d \in Derivs(r, AtomsOf(r))})

D(a, r) ==
  CASE r[1] = "set"  -> IF In(a, r[3]) THEN Eps ELSE None
    [] r[1] = "cat"  -> LET d == Cat(D(a, r[3]), r[4])
                        IN IF r[3][2] THEN Alt({d, D(a, r[4])}) ELSE d
    [] r[1] = "alt"  -> Alt({D(a, x) : x \in r[3]})
    [] r[1] = "star" -> Cat(D(a, r[3]), r)
    [] r[1] = "and"  -> And({D(a, x) : x \in r[3]})
    [] r[1] = "not"  -> Not(D(a, r[3]))
    [] r[1] = "pre"  -> LET d == D(a, r[3]) IN IF NonEmpty(d) THEN <<"pre", TRUE, d>> ELSE None
    [] r[1] = "apx"  -> Apx(UNION {ApxStep(a, x) : x \in r[3]})
    [] OTHER         -> None

RECURSIVE DSeq(_, _)
DSeq(w, r) == IF w = <<>> THEN r ELSE DSeq(Tail(w), D(w[1], r))
Accepts(r, w) == Nu(DSeq(w, r))

---------------------------------------------------------------------------
(* The letter sets an expression is made of.                                 *)
SetsOf(r) ==
  CASE r[1] = "set" -> {r[3]}
    [] r[1] = "cat" -> SetsOf(r[3]) \cup SetsOf(r[4])
    [] r[1] \in {"alt", "and"} -> UNION {SetsOf(x) : x \in r[3]}
    [] r[1] \in {"star", "not", "pre"} -> SetsOf(r[3])
    [] r[1] = "apx" -> UNION {SetsOf(x[1]) \cup (IF x[3] = -1 THEN {} ELSE {{<<x[3], x[3]>>}}) : x \in r[3]}
    [] OTHER -> {}

(* All derivatives of r. *)
Closure(todo, seen, letters) ==
  IF todo = {} THEN seen
  ELSE LET next == (UNION {Derivs(x, letters) : x \in todo}) \ seen
       IN Closure(next, seen \cup next, letters)
Reach(r) == Closure({r}, {r}, AtomsOf(r))

NonEmpty(r) ==
  IF r[2] THEN TRUE
  ELSE CASE r[1] = "set" -> TRUE
         [] r[1] = "cat" -> NonEmpty(r[3]) /\ NonEmpty(r[4])
         [] r[1] = "alt" -> \E x \in r[3] : NonEmpty(x)
         [] r[1] = "none" -> FALSE
         [] OTHER -> \E x \in Reach(r) : x[2]

---------------------------------------------------------------------------
(* All prefixes (suffixes) of the texts of r. *)
RECURSIVE PrefixesOf(_)
PrefixesOf(r) ==
  CASE r[1] = "none" -> None
    [] r[1] = "eps"  -> Eps
    [] r[1] = "set"  -> Opt(r)
    [] r[1] = "cat"  -> IF NonEmpty(r[4]) THEN Alt({PrefixesOf(r[3]), Cat(r[3], PrefixesOf(r[4]))}) ELSE None
    [] r[1] = "alt"  -> Alt({PrefixesOf(x) : x \in r[3]})
    [] r[1] = "star" -> Alt({r, Cat(r, PrefixesOf(r[3]))})
    [] r = Top -> Top
    [] OTHER -> IF NonEmpty(r) THEN <<"pre", TRUE, r>> ELSE None
SuffixesOf(r) == Alt(Reach(r))

RECURSIVE Rev(_)
Rev(r) ==
  CASE r[1] = "cat"  -> Cat(Rev(r[4]), Rev(r[3]))
    [] r[1] = "alt"  -> Alt({Rev(x) : x \in r[3]})
    [] r[1] = "and"  -> And({Rev(x) : x \in r[3]})
    [] r[1] = "not"  -> Not(Rev(r[3]))
    [] r[1] = "star" -> Star(Rev(r[3]))
    [] r[1] = "pre"  -> SuffixesOf(Rev(r[3]))
    [] OTHER -> r
=============================================================================
