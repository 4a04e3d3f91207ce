------------------------------- MODULE CapPat -------------------------------
(* Expressions whose captures are defined by ordered choice, and texts for   *)
(* them.                                                                     *)
EXTENDS GenBase

UChars == <<233, 1078, 8364, 128512>>
CLet(u) ==
  LET k == Pick(1..20)
      c == IF u /\ Chance(40) THEN OneOf(UChars) ELSE OneOf(<<97, 97, 97, 98, 98, 99>>)
  IN IF k <= 4 THEN <<"dot">> ELSE IF k <= 7 THEN <<"cls", 0, <<97, c>> >> ELSE IF k <= 9 THEN <<"cls", 1, <<c>> >> ELSE <<"ch", c>>
RepMark(x) == LET q == OneOf(<< <<0, -1>>, <<1, -1>>, <<0, 1>> >>) IN <<"rep", x, q[1], q[2], Pick(0..1)>>
PlusMark(x) == <<"rep", x, 1, -1, Pick(0..1)>>
Times(x) == LET q == OneOf(<< <<2, 2>>, <<1, 2>>, <<2, 3>>, <<1, 3>> >>) IN <<"rep", x, q[1], q[2], 1>>
\* firm: begins with a letter that cannot be left out
RECURSIVE CSeq(_, _, _, _, _)
RECURSIVE CAlt(_, _)
CItem(u, d, firm) ==
  IF d > 0 /\ Chance(30)
  THEN LET g == <<"grp", 0, CAlt(u, d - 1)>>
       IN IF firm THEN (IF Chance(20) THEN PlusMark(g) ELSE g) ELSE IF Chance(40) THEN RepMark(g) ELSE g
  ELSE LET x == CLet(u)
       IN IF firm THEN (IF Chance(20) THEN PlusMark(x) ELSE x) ELSE IF Chance(40) THEN RepMark(x) ELSE x
CSeq(u, d, firm, n, acc) == IF n = 0 THEN <<"cat", acc>> ELSE CSeq(u, d, firm, n - 1, Append(acc, CItem(u, d, firm /\ acc = <<>>)))
CAlt(u, d) == IF Chance(55) THEN CSeq(u, d, TRUE, Pick(1..3), <<>>) ELSE <<"alt", [i \in 1..OneOf(<<2, 2, 3>>) |-> CSeq(u, d, TRUE, Pick(1..3), <<>>)]>>
Inside(u, d) == IF Chance(50) THEN CSeq(u, d, FALSE, Pick(1..3), <<>>) ELSE CAlt(u, d)
AnyRun(greedy) == <<"rep", <<"dot">>, 0, -1, greedy>>
SlowTree(u) ==
  LET d == Pick(0..2)
      h == Pick(1..5)
      pre == CASE h = 1 -> << <<"bol">>, CSeq(u, 0, FALSE, Pick(0..2), <<>>) >> [] h = 2 -> << AnyRun(0), CSeq(u, 0, FALSE, Pick(0..2), <<>>) >>
               [] h = 3 -> << AnyRun(1), CSeq(u, 0, FALSE, Pick(0..2), <<>>) >> [] OTHER -> << CSeq(u, d, TRUE, Pick(1..2), <<>>) >>
      g == << <<"grp", 1, Inside(u, d)>> >>
      k == Pick(1..12)
      \* the group as an alternative, or within another group
      mid == IF k = 1 THEN << <<"grp", 0, <<"alt", << <<"cat", <<CLet(u), <<"grp", 1, CAlt(u, 0)>> >> >>, CSeq(u, 0, TRUE, Pick(1..2), <<>>) >> >> >> >>
             ELSE IF k = 2 THEN << <<"grp", 0, <<"alt", << CSeq(u, 0, TRUE, Pick(1..2), <<>>), <<"cat", <<CLet(u), <<"grp", 1, CAlt(u, 0)>> >> >> >> >> >> >>
             ELSE IF k = 3 THEN << <<"grp", 0, <<"cat", <<CLet(u), <<"grp", 1, Inside(u, d)>>, CSeq(u, 0, FALSE, 1, <<>>) >> >> >> >>
             ELSE IF k = 4 THEN << Times(CLet(u)) >> \o g
             ELSE IF k = 5 THEN << RepMark(<<"grp", 0, <<"cat", <<CLet(u), <<"grp", 1, CAlt(u, 0)>> >> >> >>) >>
             ELSE IF k = 6 THEN << RepMark(<<"grp", 1, CAlt(u, 0)>>) >>
             ELSE g
      post == << CSeq(u, d, FALSE, Pick(0..2), <<>>) >> \o (IF Chance(15) THEN << <<"eol">> >> ELSE IF Chance(8) THEN << <<"grp", 0, <<"alt", << <<"cls", 1, <<97>> >>, <<"eol">> >> >> >> >> ELSE <<>>)
  IN <<"cat", pre \o mid \o post>>

\* the boundaries are decided by what has been read: the letters x and y stand in front of the group only, c behind it
FastTree(z) ==
  LET one == << <<"ch", 120>>, <<"ch", 121>>, <<"cls", 0, <<120, 121>> >>, <<"rep", <<"ch", 120>>, 1, -1, 1>>, <<"cat", << <<"rep", <<"ch", 121>>, 0, 1, 1>>, <<"ch", 120>> >> >> >>
      a == <<"ch", 97>>  b == <<"ch", 98>>  ab == <<"cls", 0, <<97, 98>> >>
      gs == << a, <<"rep", a, 1, -1, 1>>, <<"rep", ab, 1, -1, 1>>, <<"cat", <<a, b>> >>, <<"rep", <<"grp", 0, <<"cat", <<a, b>> >> >>, 1, -1, 1>>,
               <<"alt", <<a, b>> >>, <<"alt", << <<"cat", <<a, b>> >>, b>> >>, <<"rep", <<"grp", 0, <<"alt", <<a, b>> >> >>, 1, -1, 1>>,
               <<"alt", << <<"cat", <<a, a>> >>, <<"rep", b, 1, -1, 1>> >> >>, <<"rep", <<"cls", 1, <<99, 120, 121>> >>, 1, -1, 1>>, <<"cat", <<a, <<"rep", b, 0, 1, 1>> >> >> >>
      post == << <<"ch", 99>>, <<"cls", 1, <<97, 98>> >>, <<"eol">>, <<"cls", 0, <<99, 120>> >>, <<"cat", << <<"ch", 99>>, <<"rep", <<"ch", 120>>, 0, 1, 1>> >> >>,
                 <<"cat", << <<"ch", 99>>, AnyRun(1)>> >> >>
      g == OneOf(gs)
      neg == g[1] = "rep" /\ g[2][1] = "cls" /\ g[2][2] = 1
  IN <<"cat", (IF Chance(50) THEN << <<"bol">> >> ELSE <<>>) \o [i \in 1..Pick(1..2) |-> OneOf(one)] \o << <<"grp", 1, g>>, IF neg THEN <<"ch", 99>> ELSE OneOf(post)>> >>

CLetters(u, fast) == IF fast THEN <<97, 97, 97, 98, 98, 99, 120, 120, 121, 99>> ELSE <<97, 97, 97, 98, 98, 99, 97, 98, 100, 10>>
RECURSIVE CWord(_, _, _)
CWord(u, fast, n) == IF n = 0 THEN <<>>
  ELSE (IF u /\ Chance(25) THEN Encode(OneOf(UChars)) ELSE <<OneOf(CLetters(u, fast))>>) \o CWord(u, fast, n - 1)
RECURSIVE Pieces(_)
Pieces(w) == IF w = <<>> THEN <<>> ELSE LET k == Pick(1..Len(w)) IN << <<IF Chance(25) THEN "g" ELSE IF Chance(30) THEN "s" ELSE "r", Pick(0..15), SubSeq(w, 1, k)>> >> \o Pieces(SubSeq(w, k + 1, Len(w)))
\* whole characters only for the slow one in UTF-8: its verdict is asked for after every piece
CRunOf(s, u, t) ==
  LET w == CWord(u, t = "K", Pick(0..9))
  IN <<"srun", s>> \o (IF t = "K" THEN << <<"B">> >> ELSE <<>>) \o (IF u \/ Chance(40) THEN << <<"r", Pick(0..15), w>> >> ELSE Pieces(w)) \o (IF t = "K" THEN << <<"E">> >> ELSE <<>>)
CRuns(u, t, n) == [i \in 1..n |-> CRunOf("s", u, t)]
=============================================================================
