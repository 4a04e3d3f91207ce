------------------------------ MODULE CountGen ------------------------------
(* Counting scanners of all sorts: half-final ones in every mode, and those  *)
(* counting chains of separated matches; alone, glued, copied, stored.       *)
EXTENDS GenBase
CONSTANTS Profile

VARIABLES hist, phase
Init == hist = <<>> /\ phase = "go"
Add(ops) == hist' = ops /\ phase' = "done"
Go == phase = "go"

HModes == <<"s", "n", "n0", "x", "x0", "g", "g0">>
HKinds == <<"H", "HN", "HM", "HNM">>
Simple == << <<97>>, <<97, 98, 43>>, <<40, 97, 98, 41, 43>>, <<97, 98, 43, 99, 124, 98>>, <<97, 124, 97, 97, 98>>, <<97, 43>>, <<91, 97, 98, 93, 43, 99>>, <<97, 46, 98>>,
             <<97, 98, 124, 98, 97>>, <<97, 97>>, <<97, 42, 98>>, <<97, 123, 50, 44, 51, 125>>, <<94, 97>>, <<98, 36>>, <<97, 98, 99, 124, 98, 99, 124, 99>>, <<40, 97, 97, 124, 98, 98, 41, 43>>,
             <<46, 42, 97>>, <<97, 46, 42>>, <<97, 63>>, <<97, 42>> >>
Pat(z) == IF Chance(60) THEN OneOf(Simple) ELSE RPattern(1, <<>>)
Sur(r) == IF Chance(10) THEN << <<"f", "surround", r>> >> ELSE IF Chance(10) THEN << <<"f", "appany", r>> >> ELSE <<>>
Prep(r) == << <<"fparse", r, <<>>, Pat(0)>> >> \o Sur(r) \o (IF Chance(20) THEN << <<"f", OneOf(<<"det", "canon">>), r>> >> ELSE <<>>)
HCompile(s, t, r) == IF Chance(12) THEN << <<"scompile", s, t, r>> >> ELSE << <<"shalf", s, t, r, OneOf(HModes)>> >>
Reform(s, t) ==
  LET k == Pick(1..12)
  IN IF k = 1 THEN << <<"scopy", "c", s>>, <<"sdel", s>>, <<"scopy", s, "c">> >>
     ELSE IF k = 2 THEN << <<"ssave", "buf", s>>, <<"sload", s, "buf">> >>
     ELSE IF k = 3 /\ t \in {"H", "HM"} THEN << <<"ssave", "buf", s>>, <<"smmap", s, "buf">> >>
     ELSE IF k = 4 THEN << <<"sempty", "c", t>>, <<"sassign", "c", s>>, <<"sempty", s, t>>, <<"sswap", "c", s>> >>
     ELSE <<>>
RECURSIVE Runs(_, _)
ARun(s) == <<"srun", s>> \o (IF Chance(50) THEN << <<"B">>, <<"r", Pick(0..15), Text(0) \o Text(0)>>, <<"E">> >> ELSE RItems(0))
Runs(s, n) == IF n = 0 THEN <<>> ELSE <<ARun(s)>> \o Runs(s, n - 1)
C16 == /\ Go /\ Profile = "C16"
  /\ \E t \in {OneOf(HKinds)}, g \in {Pick(1..3)} :
     Add(Prep("a") \o HCompile("s", t, "a") \o Reform("s", t) \o << <<"sdump", "s", <<>> >> >> \o Runs("s", 4)
         \o (IF g = 1 THEN Prep("b") \o HCompile("t", t, "b") \o << <<"sglue", "g", "s", "t">> >> \o Reform("g", t) \o << <<"sinfo", "g">>, <<"sdump", "g", <<>> >> >> \o Runs("g", 3)
                           \o (IF Chance(30) THEN << <<"sglue", "h", "t", "g">>, <<"sdump", "h", <<>> >> >> \o Runs("h", 2) ELSE <<>>)
             ELSE IF g = 2 /\ Chance(40) THEN Prep("b") \o HCompile("t", t, "b") \o << <<"sdump", "t", <<>> >> >> \o [i \in 1..4 |-> <<"sglue", "g", "s", "t", Pick(1..16)>>]
                           \o << <<"sinfo", "g">>, <<"sdump", "g", <<>> >> >>
             ELSE <<>>))

\* ---- chains of matches
Res == << <<97>>, <<97, 98>>, <<97, 98, 99>>, <<97, 43>>, <<97, 98, 124, 99>>, <<91, 97, 98, 93>>, <<91, 97, 98, 93, 99>>, <<97, 91, 98, 99, 93>>, <<97, 98, 42, 99>>, <<97, 97>>,
          <<97, 124, 98, 98>>, <<97, 123, 50, 44, 51, 125>>, <<40, 97, 98, 41, 43>>, <<97, 63, 98>>, <<91, 94, 99, 93, 43>>, <<97, 98, 97>>, <<94, 97>>, <<98, 36>>, <<97, 42, 98>>,
          <<97, 124, 97, 97, 98>>, <<97, 46, 98>>, <<97, 98, 124, 98, 97>>, <<97, 42>>, <<97, 63>> >>
Seps == << <<46, 42>>, <<46, 42>>, <<46, 42>>, <<99>>, <<99, 42>>, <<98>>, <<91, 98, 99, 93>>, <<98, 43>>, <<98, 99, 124, 99>>, <<91, 94, 97, 93, 42>>, <<91, 94, 97, 93, 43>>, <<>>, <<46>>,
           <<46, 63>>, <<99, 99>>, <<98, 99>>, <<46, 42, 99>>, <<99, 46, 42>>, <<97>>, <<97, 42>>, <<91, 94, 97, 93>> >>
RePat(z) == IF Chance(75) THEN OneOf(Res) ELSE RPattern(1, <<>>)
SepPat(z) == IF Chance(85) THEN OneOf(Seps) ELSE RPattern(1, <<>>)
Ab == << <<97, 98, 99>>, <<97, 98, 99>>, <<97, 98>>, <<99, 97>>, <<97, 98, 99, 100>> >>
CountUp(s, l, n) == << <<"scountall", s, l, n>> >>
Deep(l) == IF Len(l) = 2 THEN OneOf(<<5, 6, 7>>) ELSE IF Len(l) = 3 THEN OneOf(<<3, 4, 4, 5>>) ELSE 3
CText(l) == LET RECURSIVE X(_)
                X(n) == IF n = 0 THEN <<>> ELSE Append(X(n - 1), OneOf(l))
            IN X(Pick(0..30))
Some(s, l) == << <<"scounts", s>> \o [i \in 1..4 |-> CText(l)] >>
CReform(s, t) ==
  LET k == Pick(1..14)
  IN IF k = 1 THEN << <<"scopy", "c", s>>, <<"sdel", s>>, <<"scopy", s, "c">> >>
     ELSE IF k = 2 THEN << <<"ssave", "buf", s>>, <<"sload", s, "buf">>, <<"bclear", "buf">> >>
     ELSE IF k = 3 THEN << <<"ssave", "buf", s>>, <<"smmap", s, "buf">> >>
     ELSE IF k = 4 THEN << <<"sempty", "c", t>>, <<"sassign", "c", s>>, <<"sempty", s, t>>, <<"sswap", "c", s>> >>
     ELSE IF k = 5 THEN << <<"smove", "c", s>>, <<"smoveassign", s, "c">> >>
     ELSE IF k = 6 /\ t = "A" THEN << <<"ssave", "buf", s>>, <<"sempty", s, "G">>, <<"sload", s, "buf">>, <<"bclear", "buf">> >>     \* read by the unlimited one
     ELSE <<>>
Two(z) == << <<"fparse", "a", <<>>, RePat(0)>>, <<"fparse", "b", <<>>, SepPat(0)>> >>
C14 == /\ Go /\ Profile = "C14"
  /\ \E t \in {OneOf(<<"A", "A", "G", "G", "C">>)}, u \in {OneOf(<<"A", "G", "C">>)}, l \in {OneOf(Ab)} : \E n \in {Deep(l)} :
     Add(Two(0) \o << <<"scount", "s", t, "a", "b">> >> \o CountUp("s", l, n) \o Some("s", l)
         \o (IF u # t THEN << <<"scount", "u", u, "a", "b">> >> \o CountUp("u", l, n) ELSE <<>>)
         \o CReform("s", t)
         \o CountUp("s", l, n))
\* glued scanners
GlueChain == /\ Go /\ Profile = "C14"
  /\ \E t \in {OneOf(<<"A", "G", "C">>)}, l \in {OneOf(Ab)} : \E n \in {Deep(l)}, k \in {Pick(1..4)}, lim \in {IF Chance(15) THEN <<Pick(1..40)>> ELSE <<>>}, compat \in {Chance(20)} :
     Add(Two(0) \o << <<"fparse", "d", <<>>, RePat(0)>>, <<"fparse", "e", <<>>, SepPat(0)>>, <<"scount", "s", t, "a", "b">>, <<"scount", "v", t, "d", IF Chance(50) THEN "e" ELSE "b">> >>
         \o CountUp("s", l, n) \o CountUp("v", l, n)
         \o (IF t = "A" /\ compat THEN << <<"ssave", "buf", "v">>, <<"sempty", "v", "G">>, <<"sload", "v", "buf">>, <<"bclear", "buf">>,
                                               <<"ssave", "buf", "s">>, <<"sempty", "s", "G">>, <<"sload", "s", "buf">>, <<"bclear", "buf">> >> ELSE <<>>)
         \o << <<"sglue", "g", "s", "v">> \o lim, <<"sinfo", "g">> >> \o CountUp("g", l, n) \o CReform("g", IF compat /\ t = "A" THEN "G" ELSE t) \o CountUp("g", l, n)
         \o (IF k = 1 /\ lim = <<>> THEN Two(0) \o << <<"scount", "w", t, "a", "b">> >> \o CountUp("w", l, n) ELSE <<>>))
Three == /\ Go /\ Profile = "C14"
  /\ \E t \in {OneOf(<<"A", "G", "G", "C">>)}, l \in {OneOf(Ab)} : \E n \in {Deep(l) - 1}, k \in {Pick(1..2)} :
     Add(Two(0) \o << <<"scount", "s", t, "a", "b">> >> \o Two(0) \o << <<"scount", "v", t, "a", "b">> >> \o Two(0) \o << <<"scount", "w", t, "a", "b">> >>
         \o CountUp("s", l, n) \o CountUp("v", l, n) \o CountUp("w", l, n)
         \o (IF k = 1 THEN << <<"sglue", "g", "s", "v">>, <<"sglue", "g", "g", "w">> >> ELSE << <<"sglue", "g", "v", "w">>, <<"sglue", "g", "s", "g">> >>)
         \o << <<"sinfo", "g">> >> \o CReform("g", t) \o CountUp("g", l, n) \o Some("g", l))
\* up to the limit on the number of regexps, and over it
Many == /\ Go /\ Profile = "C14"
  /\ \E t \in {OneOf(<<"A", "G", "C">>)}, p \in {OneOf(<< <<97>>, <<97, 98>>, <<91, 97, 98, 93>> >>)}, k \in {Pick(1..4)} :
     Add(<< <<"fparse", "a", <<>>, p>>, <<"fparse", "b", <<>>, OneOf(Seps)>>, <<"scount", "s", t, "a", "b">> >> \o CountUp("s", <<97, 98>>, 3)
         \o << <<"sglue", "g", "s", "s">>, <<"sglue", "g", "g", "g">>, <<"sglue", "g", "g", "g">> >>
         \o (IF k = 1 THEN << <<"sglue", "h", "g", "g">>, <<"sinfo", "h">> >> \o CountUp("h", <<97, 98>>, 3) \o << <<"sglue", "h", "h", "s">>, <<"sinfo", "h">> >> \o CountUp("h", <<97, 98>>, 3)
             ELSE IF k = 2 THEN << <<"sglue", "h", "g", "g">>, <<"sglue", "h", "s", "h">>, <<"sinfo", "h">> >> \o CountUp("h", <<97, 98>>, 3)
             ELSE IF k = 3 THEN << <<"sglue", "h", "g", "s">>, <<"sglue", "h", "h", "g">>, <<"sinfo", "h">> >> \o CountUp("h", <<97, 98>>, 3)
             ELSE << <<"sglue", "h", "g", "s">>, <<"sinfo", "h">> >> \o CReform("h", t) \o CountUp("h", <<97, 98>>, 3)))
\* letters which are all different
BigText(n) == LET RECURSIVE X(_)
                  X(k) == IF k = 0 THEN <<>> ELSE (IF Chance(90) THEN <<Pick(0..255), LetterOf(Pick(0..(n - 1)))>> ELSE <<Pick(0..255)>>) \o X(k - 1)
              IN X(Pick(0..12))
Big == /\ Go /\ Profile = "big"
  /\ \E n \in {OneOf(<<5, 7, 7, 8>>)}, neg \in {Chance(50)}, t \in {OneOf(<<"C", "A", "G", "H", "H">>)} :
     Add(<< <<"fparse", "a", <<>>, <<40>> \o BitAlts(0, n, neg) \o <<41>> >>, <<"fparse", "b", <<>>, <<46, 42>> >> >>
         \o (IF t = "H" THEN << <<"shalf", "s", t, "a", OneOf(HModes)>>, <<"sdump", "s", <<>> >>, <<"ssave", "buf", "s">>, <<"smmap", "s", "buf">>, <<"sdump", "s", <<>> >> >>
             ELSE << <<"scount", "s", t, "a", "b">>, <<"scounts", "s">> \o [i \in 1..20 |-> BigText(n)], <<"ssave", "buf", "s">>, <<"smmap", "s", "buf">>, <<"scounts", "s">> \o [i \in 1..20 |-> BigText(n)] >>))
Next == Big \/ C16 \/ C14 \/ GlueChain \/ Three \/ Many
Spec == Init /\ [][Next]_<<hist, phase>>
Emit == phase = "done" => PrintT(CaseText(hist))
=============================================================================
