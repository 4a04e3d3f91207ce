------------------------------ MODULE Capture ------------------------------
(* Capturing.  The expression is given as a tree:                            *)
(*   <<"ch", c>>  <<"dot">>  <<"cls", negated, cs>>  <<"cat", xs>>           *)
(*   <<"alt", xs>>  <<"rep", x, lo, hi (-1: any), greedy>>                   *)
(*   <<"grp", captured, x>>  <<"bol">>  <<"eol">>                            *)
(* Matching is ordered choice: the outcomes of matching a tree at a position *)
(* are listed in the order of preference -- the earlier alternative first,   *)
(* one more round first for a greedy repetition and last for another -- and  *)
(* of the outcomes ending at the same place only the preferred one is kept.  *)
(* An outcome is <<end, begin and end of the capture (-1: none)>>; a group   *)
(* passed several times keeps its first passage.                             *)
EXTENDS Utf8, SequencesExt

\* ---- how the tree is written
RECURSIVE CapText(_)
CapNum(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
CapJoin(xs, sep) == FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 THEN sep ELSE <<>>) \o CapText(xs[i]), <<>>, [i \in 1..Len(xs) |-> i])
RepText(lo, hi, greedy) ==
  (CASE lo = 0 /\ hi = -1 -> <<42>> [] lo = 1 /\ hi = -1 -> <<43>> [] lo = 0 /\ hi = 1 -> <<63>>
     [] lo = hi -> <<123>> \o CapNum(lo) \o <<125>>
     [] hi = -1 -> <<123>> \o CapNum(lo) \o <<44, 125>>
     [] OTHER -> <<123>> \o CapNum(lo) \o <<44>> \o CapNum(hi) \o <<125>>) \o (IF greedy = 1 THEN <<>> ELSE <<63>>)
CapText(x) ==
  CASE x[1] = "ch" -> <<x[2]>> [] x[1] = "dot" -> <<46>> [] x[1] = "bol" -> <<94>> [] x[1] = "eol" -> <<36>>
    [] x[1] = "cls" -> <<91>> \o (IF x[2] = 1 THEN <<94>> ELSE <<>>) \o x[3] \o <<93>>
    [] x[1] = "cat" -> CapJoin(x[2], <<>>)
    [] x[1] = "alt" -> CapJoin(x[2], <<124>>)
    [] x[1] = "grp" -> <<40>> \o CapText(x[3]) \o <<41>>
    [] x[1] = "rep" -> CapText(x[2]) \o RepText(x[3], x[4], x[5])
\* the number of the captured group: <<opened so far, the number or 0>>
RECURSIVE CapCount(_, _)
CapCount(x, acc) ==
  CASE x[1] \in {"cat", "alt"} -> FoldLeft(LAMBDA a, y : CapCount(y, a), acc, x[2])
    [] x[1] = "rep" -> CapCount(x[2], acc)
    [] x[1] = "grp" -> CapCount(x[3], <<acc[1] + 1, IF x[2] = 1 THEN acc[1] + 1 ELSE acc[2]>>)
    [] OTHER -> acc
CapIndex(x) == CapCount(x, <<0, 0>>)[2]

\* ---- what it matches
Preferred(s) == FoldLeft(LAMBDA acc, r : IF \E i \in 1..Len(acc) : acc[i][1] = r[1] THEN acc ELSE Append(acc, r), <<>>, s)
RECURSIVE Outcomes(_, _, _, _)
RECURSIVE Rounds(_, _, _, _, _, _, _)
Each(rs, Op(_)) == Preferred(FoldLeft(LAMBDA acc, r : acc \o Op(r), <<>>, rs))
\* lengths of a letter satisfying P at position i
OneLetter(u, w, i, P(_)) ==
  IF u THEN LET k == {k \in 1..4 : i + k <= Len(w) /\ LET d == Decode(SubSeq(w, i + 1, i + k)) IN d[1] /\ Len(d[2]) = 1 /\ P(d[2][1])}
            IN k
  ELSE IF i < Len(w) /\ P(w[i + 1]) THEN {1} ELSE {}
Letters1(u, w, r, P(_)) == LET k == OneLetter(u, w, r[1], P) IN IF k = {} THEN <<>> ELSE << <<r[1] + (CHOOSE x \in k : TRUE), r[2], r[3]>> >>
Outcomes(u, w, x, r) ==
  CASE x[1] = "ch"  -> Letters1(u, w, r, LAMBDA c : c = x[2])
    [] x[1] = "dot" -> Letters1(u, w, r, LAMBDA c : TRUE)
    [] x[1] = "cls" -> Letters1(u, w, r, LAMBDA c : (\E i \in 1..Len(x[3]) : x[3][i] = c) = (x[2] = 0))
    [] x[1] = "bol" -> IF r[1] = 0 THEN <<r>> ELSE <<>>
    [] x[1] = "eol" -> IF r[1] = Len(w) THEN <<r>> ELSE <<>>
    [] x[1] = "cat" -> FoldLeft(LAMBDA acc, y : Each(acc, LAMBDA q : Outcomes(u, w, y, q)), <<r>>, x[2])
    [] x[1] = "alt" -> Preferred(FoldLeft(LAMBDA acc, y : acc \o Outcomes(u, w, y, r), <<>>, x[2]))
    [] x[1] = "grp" -> IF x[2] = 0 THEN Outcomes(u, w, x[3], r)
                       ELSE LET q == IF r[2] = -1 THEN <<r[1], r[1], -1>> ELSE r
                            IN [i \in 1..Len(Outcomes(u, w, x[3], q)) |-> LET z == Outcomes(u, w, x[3], q)[i] IN IF z[3] = -1 THEN <<z[1], z[2], z[1]>> ELSE z]
    [] x[1] = "rep" -> Rounds(u, w, x[2], x[3], x[4], x[5], r)
Rounds(u, w, x, lo, hi, greedy, r) ==
  IF hi = 0 THEN <<r>>
  ELSE LET more == Each(SelectSeq(Outcomes(u, w, x, r), LAMBDA z : lo > 0 \/ z[1] > r[1]),
                        LAMBDA z : Rounds(u, w, x, IF lo > 0 THEN lo - 1 ELSE 0, IF hi > 0 THEN hi - 1 ELSE hi, greedy, z))
       IN IF lo > 0 THEN more ELSE Preferred(IF greedy = 1 THEN more \o <<r>> ELSE <<r>> \o more)

\* <<is there a match, <<end, begin and end of the capture>>: from the leftmost start
RECURSIVE SearchFrom(_, _, _, _)
SearchFrom(u, w, x, s) ==
  LET o == Outcomes(u, w, x, <<s, -1, -1>>)
  IN IF o # <<>> THEN <<TRUE, o[1]>> ELSE IF s >= Len(w) THEN <<FALSE>> ELSE SearchFrom(u, w, x, s + 1)
\* the span captured, <<>> if there is none
Span(u, w, x) == LET m == SearchFrom(u, w, x, 0) IN IF m[1] /\ m[2][2] # -1 THEN <<m[2][2], m[2][3]>> ELSE <<>>
=============================================================================
