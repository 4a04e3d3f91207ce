------------------------------- MODULE FsmGen -------------------------------
(* Histories of the automata of the machine: every behaviour of this module  *)
(* is a sequence of calls on a few automaton registers, with dumps of their  *)
(* complete tables in between and at the end.  w estimates the size of each  *)
(* register, so that the histories stay small.                               *)
EXTENDS GenBase
CONSTANTS Profile

VARIABLES hist, w, left
vars == <<hist, w, left>>
Regs == {"a", "b", "c"}

Init == hist = <<>> /\ w = [r \in Regs |-> 1] /\ left \in (IF Profile = "C03" THEN 2..9 ELSE 3..12)

\* automata given by their tables
RECURSIVE Edges(_, _)
Edges(n, k) == IF k = 0 THEN <<>> ELSE <<Pick(0..(n - 1)), Pick(0..(n - 1)), OneOf(<<97, 97, 97, 98, 98, 98, 257, 257, 255, 0, BeginMark, EndMark>>)>> \o Edges(n, k - 1)
RECURSIVE Gone(_, _)
Gone(e, k) == IF k = 0 THEN <<>> ELSE LET i == 3 * Pick(0..((Len(e) \div 3) - 1)) IN <<e[i + 1], e[i + 2], IF Chance(50) THEN 999 ELSE e[i + 3]>> \o Gone(e, k - 1)
\* one call, leaving register r with size n; now and then its table is dumped at once
Do(op, r, n, flags) ==
  /\ left > 0 /\ left' = left - 1
  /\ w' = [w EXCEPT ![r] = n]
  /\ hist' = hist \o <<op>> \o (IF flags # <<>> \/ Chance(25) THEN << <<"fdump", r, flags>> >> ELSE <<>>)
Room == IF Profile = "C13" THEN 5 ELSE 14
R1(r) == r \in {Pick(Regs)}
Byte(z) == OneOf(<<97, 97, 98, 98, 99, 0, 128, 255, 10, 127>>)
RECURSIVE RStr(_)
RStr(n) == IF n = 0 THEN <<>> ELSE <<Byte(0)>> \o RStr(n - 1)
Caselike(z) == OneOf(<< << <<97>>, <<65>> >>, << <<208, 175>>, <<209, 143>> >>, << <<97, 98>>, <<97, 99>>, <<98>> >>, << <<>>, <<97>> >>,
                     << <<97>>, <<97, 97>> >>, << <<255>>, <<0>> >>, << <<97, 98, 99>>, <<120, 98, 99>> >> >>)

New == left > 0 /\ \E r \in {Pick(Regs)} : Do(<<"f", OneOf(<<"new", "new", "false">>), r>>, r, 1, <<>>)
Parse1 == left > 0 /\ \E r \in {Pick(Regs)} : \E p \in {RPattern(1, <<>>)} : Len(p) <= Room + 4 /\ Do(<<"fparse", r, <<>>, p>>, r, IF Len(p) > 8 THEN 8 ELSE Len(p), <<>>)
Ch1 == left > 0 /\ \E r \in {Pick(Regs)} : w[r] < Room /\ Do(<<"f", "ch", r, Byte(0)>>, r, w[r] + 1, <<>>)
Str1 == left > 0 /\ \E r \in {Pick(Regs)} : \E s \in {RStr(Pick(0..4))} : w[r] < Room /\ Do(<<"f", "str", r, s>>, r, w[r] + Len(s), <<>>)
\* a string, some of its beginnings, and some that part from it, in any order
PrefixList(z) == LET s == RStr(Pick(2..4))
                     one(i) == LET k == Pick(1..Len(s)) IN IF Chance(60) THEN SubSeq(s, 1, k) ELSE SubSeq(s, 1, k - 1) \o RStr(Pick(1..2))
                     l == TLCEval([i \in 1..Pick(1..3) |-> one(i)])
                     at == Pick(0..Len(l))
                 IN SubSeq(l, 1, at) \o <<s>> \o SubSeq(l, at + 1, Len(l))
Strs1 == left > 0 /\ \E r \in {Pick(Regs)} : \E ss \in {IF Chance(30) THEN Caselike(0) ELSE IF Chance(50) THEN PrefixList(0) ELSE [i \in 1..Pick(1..4) |-> RStr(Pick(0..3))]} :
           w[r] < Room /\ Do(<<"f", "strs", r>> \o ss, r, w[r] + 4, <<>>)
Dot1 == left > 0 /\ \E r \in {Pick(Regs)} : w[r] < Room /\ Do(<<"f", "dot", r>>, r, w[r] + 1, <<>>)
Special == left > 0 /\ \E r \in {Pick(Regs)} : w[r] < Room /\ Do(<<"f", "special", r, Pick({BeginMark, EndMark})>>, r, w[r] + 1, <<>>)
Cat2 == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)} : w[r] + w[x] <= Room + 6 /\ Do(<<"f", "cat", r, x>>, r, w[r] + w[x], <<>>)
Or2 == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)} : w[r] + w[x] <= Room + 6 /\ Do(<<"f", "or", r, x>>, r, w[r] + w[x], <<>>)
And2 == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)} : w[r] * w[x] <= 40 /\ Do(<<"f", "and", r, x>>, r, w[r] * w[x], <<>>)
Ternary == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)}, y \in {Pick(Regs)}, o \in {Pick({"cat3", "or3", "and3"})} :
             /\ w[x] + w[y] <= Room + 6 /\ (o = "and3" => w[x] * w[y] <= 40)
             /\ Do(<<"f", o, r, x, y>>, r, IF o = "and3" THEN w[x] * w[y] ELSE w[x] + w[y], <<>>)
Star1 == left > 0 /\ \E r \in {Pick(Regs)} : w[r] < Room /\ Do(<<"f", "star", r>>, r, w[r] + 1, <<>>)
Star2 == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)} : w[x] < Room /\ Do(<<"f", "star2", r, x>>, r, w[x] + 1, <<>>)
Not1 == left > 0 /\ \E r \in {Pick(Regs)} : w[r] <= 9 /\ Do(<<"f", "not", r>>, r, w[r] + 2, <<>>)
Not2 == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)} : w[x] <= 9 /\ Do(<<"f", "not2", r, x>>, r, w[x] + 2, <<>>)
Mul1 == left > 0 /\ \E r \in {Pick(Regs)}, n \in {OneOf(<<0, 1, 2, 2, 3, 4>>)} : w[r] * n <= Room /\ Do(<<"f", "mul", r, n>>, r, w[r] * n + 1, <<>>)
Mul3 == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)}, n \in {OneOf(<<0, 1, 2, 2, 3, 4>>)} : w[x] * n <= Room /\ Do(<<"f", "mul3", r, x, n>>, r, w[x] * n + 1, <<>>)
Around == left > 0 /\ \E r \in {Pick(Regs)}, o \in {Pick({"surround", "prepany", "appany"})} : w[r] <= Room - 2 /\ Do(<<"f", o, r>>, r, w[r] + 2, <<>>)
Around2 == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)} : w[x] <= Room - 2 /\ Do(<<"f", "surround2", r, x>>, r, w[x] + 2, <<>>)
RevAct == left > 0 /\ \E r \in {Pick(Regs)} : Do(<<"f", "rev", r>>, r, w[r], <<>>)
Parts == left > 0 /\ \E r \in {Pick(Regs)}, o \in {Pick({"prefix", "suffix"})} : w[r] <= 10 /\ Do(<<"f", o, r>>, r, w[r] + 1, <<>>)
Import == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)} : r # x /\ w[r] + w[x] <= Room + 6 /\ Do(<<"f", "import", r, x>>, r, w[r] + w[x], <<>>)
Copy == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)}, o \in {Pick({"copy", "assign"})} : (o = "assign" \/ r # x) /\ Do(<<"f", o, r, x>>, r, w[x], <<>>)
Swap == left > 0 /\ \E r \in {Pick(Regs)}, x \in {Pick(Regs)} :
          /\ left > 0 /\ left' = left - 1 /\ w' = [w EXCEPT ![r] = w[x], ![x] = w[r]] /\ hist' = Append(hist, <<"f", "swap", r, x>>)
Normal == left > 0 /\ \E r \in {Pick(Regs)}, o \in {Pick({"rmeps", "rmdead", "sparse", "unsparse"})} :
          Do(<<"f", o, r>>, r, w[r], <<>>)
SparseThen == left > 0 /\ \E r \in {Pick(Regs)}, o \in {Pick({"star", "dot", "not", "appany", "rev", "rmdead", "prefix", "suffix"})} :
     /\ w[r] <= 9 /\ left > 0 /\ left' = left - 1 /\ w' = [w EXCEPT ![r] = w[r] + 2]
     /\ hist' = hist \o << <<"f", "sparse", r>>, <<"f", o, r>>, <<"fdump", r, <<>> >> >>
Raw == left > 0 /\ Profile \in {"C02", "C03"} /\ \E r \in {Pick(Regs)}, n \in {OneOf(<<1, 2, 3, 3, 3, 4>>)} :
     \E e \in {TLCEval(Edges(n, OneOf(<<n, n + 1, n + 1, n + 2, n + 3>>)))} :
     \E fin \in {SetToSeq({q \in 0..(n - 1) : Chance(40)})}, g \in {Gone(e, OneOf(<<0, 0, 0, 1, 2>>))} :
        Do(<<"f", "raw", r, n, Pick(0..(n - 1)), e, fin, g>>, r, 6, <<>>)
Det == left > 0 /\ \E r \in {Pick(Regs)} : Do(<<"f", "det", r>>, r, w[r], <<"det">>)
DetLimited == left > 0 /\ \E r \in {Pick(Regs)}, n \in {Pick(1..12)} :
     /\ left > 0 /\ left' = left - 1 /\ UNCHANGED w
     /\ hist' = hist \o << <<"fdump", r, <<"nolang">> >>, <<"f", IF Chance(70) THEN "det" ELSE "canon", r, n>>, <<"fdump", r, <<"limit">>, n>> >>
Canon == left > 0 /\ \E r \in {Pick(Regs)} : Do(<<"f", "canon", r>>, r, w[r], <<"min">>)
DetMin == left > 0 /\ \E r \in {Pick(Regs)} :
     /\ left > 0 /\ left' = left - 1 /\ UNCHANGED w
     /\ hist' = hist \o << <<"f", "det", r>> >> \o (IF Chance(50) THEN << <<"fdump", r, <<"det">> >> >> ELSE <<>>)
                     \o << <<"f", "min", r>>, <<"fdump", r, <<"min">> >> >>
\* what is compiled is independent of what becomes of the automaton
CompileAct == left > 0 /\ Profile = "C09" /\ \E r \in {Pick(Regs)}, o \in {Pick({"star", "dot", "appany", "rev", "new", "canon", "sparse"})} :
     /\ w[r] <= 10 /\ left > 0 /\ left' = left - 1 /\ w' = [w EXCEPT ![r] = w[r] + 2]
     /\ hist' = hist \o << <<OneOf(<<"scompile", "scompilein">>), "s", OneOf(<<"S", "N", "SM", "I", "W">>), r>>, <<"f", o, r>>, <<"sdump", "s", <<>> >>, <<"fdump", r, <<>> >> >>
Approximate == left > 0 /\ \E r \in {Pick(Regs)}, k \in {OneOf(<<1, 1, 1, 2, 0>>)} :
     Profile = "C13" /\ w[r] <= 4 /\ k * w[r] <= 5 /\ Do(<<"f", "approx", r, k>>, r, 20, <<>>)

Finish ==
  /\ left = 0 /\ left' = -1 /\ UNCHANGED w
  /\ hist' = hist \o << <<"fdump", "a", <<>> >>, <<"fdump", "b", <<>> >>, <<"fdump", "c", <<>> >> >>
                  \o (IF Profile \in {"C02", "C09"} THEN <<>> ELSE << <<"f", "canon", "a">>, <<"fdump", "a", <<"min">> >>, <<"f", "det", "b">>, <<"fdump", "b", <<"det">> >> >>)

Next ==
  \/ New \/ Raw \/ Parse1 \/ Parse1 \/ Ch1 \/ Str1 \/ Strs1 \/ Dot1 \/ Special \/ Cat2 \/ Cat2 \/ Or2 \/ Or2 \/ And2 \/ Ternary \/ Star1 \/ Star2 \/ Not1 \/ Not2
  \/ Mul1 \/ Mul3 \/ Around \/ Around2 \/ RevAct \/ Parts \/ Import \/ Copy \/ Swap \/ Normal \/ SparseThen \/ Det \/ DetLimited \/ Canon
  \/ (Profile = "C03" /\ (Det \/ DetLimited \/ DetMin \/ Canon \/ Normal \/ Parse1 \/ Raw))
  \/ (Profile = "C13" /\ (Approximate \/ Approximate \/ Approximate))
  \/ (Profile = "C09" /\ (Copy \/ Copy \/ Copy \/ Swap \/ Swap \/ CompileAct \/ CompileAct \/ CompileAct))
  \/ Finish
Spec == Init /\ [][Next]_vars
Emit == left = -1 => PrintT(CaseText(hist))
=============================================================================
