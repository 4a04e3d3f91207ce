------------------------------ MODULE KindGen ------------------------------
(* Building blocks for histories of scanners of every kind: how one is made, *)
(* how it is looked at.                                                      *)
EXTENDS CapPat

AllKinds == {"S", "N", "SM", "NM", "I", "W", "H", "HN", "HM", "HNM", "C", "A", "G", "K", "KS"}
NoMmap == {"N", "NM", "HN", "HNM"}
NoGlue == {"I", "W", "K", "KS"}
CanMap(t) == t \notin NoMmap
\* of two memory forms
Sibling(t) == CASE t = "S" -> "N" [] t = "N" -> "S" [] t = "SM" -> "NM" [] t = "NM" -> "SM" [] t = "H" -> "HN" [] t = "HN" -> "H" [] t = "HM" -> "HNM" [] t = "HNM" -> "HM"
                [] t = "A" -> "G" [] OTHER -> t

HalfModes == <<"s", "n", "n0", "x", "x0", "g", "g0">>
HPats == << <<97>>, <<97, 98, 43>>, <<40, 97, 98, 41, 43>>, <<97, 98, 43, 99, 124, 98>>, <<97, 43>>, <<91, 97, 98, 93, 43, 99>>, <<97, 98, 124, 98, 97>>, <<97, 98, 99, 124, 98, 99, 124, 99>>,
           <<97, 123, 50, 44, 51, 125>>, <<94, 97>>, <<98, 36>> >>
CPats == << <<97>>, <<97, 98>>, <<97, 43>>, <<97, 98, 124, 99>>, <<91, 97, 98, 93>>, <<97, 91, 98, 99, 93>>, <<97, 98, 42, 99>>, <<97, 124, 98, 98>>, <<40, 97, 98, 41, 43>>, <<97, 63, 98>>, <<94, 97>>, <<98, 36>> >>
CSeps == << <<46, 42>>, <<46, 42>>, <<99>>, <<99, 42>>, <<98>>, <<91, 98, 99, 93>>, <<91, 94, 97, 93, 42>>, <<91, 94, 97, 93, 43>>, <<>>, <<46>>, <<99, 99>> >>

\* one regexp, depth d of the pattern where it is a random one
Single(x, t, d) ==
  IF t \in HalfKinds THEN << <<"fparse", "a", <<>>, IF Chance(60) THEN OneOf(HPats) ELSE RPattern(d, <<>>)>> >>
                          \o (IF Chance(12) THEN << <<"scompile", x, t, "a">> >> ELSE << <<"shalf", x, t, "a", OneOf(HalfModes)>> >>)
  ELSE IF t \in CountKinds THEN << <<"fparse", "a", <<>>, OneOf(CPats)>>, <<"fparse", "b", <<>>, OneOf(CSeps)>>, <<"scount", x, t, "a", "b">> >>
  ELSE IF t = "K" THEN LET y == FastTree(0) IN << <<"scap", x, t, y, <<>>, CapText(y), CapIndex(y)>> >>
  ELSE IF t = "KS" THEN LET y == SlowTree(FALSE) IN << <<"scap", x, t, y, <<>>, CapText(y), CapIndex(y)>> >>
  ELSE << <<"fparse", "a", <<>>, RPattern(d, <<>>)>>, <<"scompile", x, t, "a">> >>
\* nothing, one regexp or two
MakeAny(x, t) ==
  LET k == Pick(1..10)
  IN IF k = 1 THEN << <<"sempty", x, t>> >>
     ELSE IF k <= 3 /\ t \notin NoGlue THEN Single("x1", t, 1) \o Single("x2", t, 1) \o << <<"sglue", x, "x1", "x2">> >>
     ELSE Single(x, t, IF k = 4 THEN 2 ELSE 1)

CountLetters == <<97, 98, 99>>
RunAny(x, t) == IF t \in {"K", "KS"} THEN CRunOf(x, FALSE, t)
                ELSE IF t \in CountKinds \cup HalfKinds /\ Chance(50) THEN <<"srun", x>> \o << <<"B">>, <<"r", Pick(0..15), Text(0) \o Text(0)>>, <<"E">> >>
                ELSE <<"srun", x>> \o RItems(0)
RECURSIVE RunsAny(_, _, _)
RunsAny(x, t, n) == IF n = 0 THEN <<>> ELSE <<RunAny(x, t)>> \o RunsAny(x, t, n - 1)
LookAt(x, t) ==
  (IF t = "KS" THEN <<>> ELSE << <<"sinfo", x>> >>)
  \o (IF t \in CountKinds THEN << <<"scountall", x, CountLetters, 3>> >> ELSE IF t \in {"K", "KS"} THEN RunsAny(x, t, 4) ELSE << <<"sdump", x, <<>> >> >>)
  \o RunsAny(x, t, 2)
=============================================================================
