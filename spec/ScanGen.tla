------------------------------- MODULE ScanGen -------------------------------
(* Histories of scanners: compiled, converted, glued, run, searched, paired. *)
EXTENDS KindGen
CONSTANTS Profile

VARIABLES hist, phase
Init == hist = <<>> /\ phase = "go"
Add(ops) == hist' = ops /\ phase' = "done"
Go == phase = "go"

Multi == <<"S", "N", "SM", "NM">>
SingleKinds == <<"S", "N", "SM", "NM", "I", "W">>
\* patterns apt to give states which are left on few letters only
Stretchy == << <<46, 42, 97>>, <<46, 42, 97, 46, 42, 98, 46, 42>>, <<91, 94, 97, 93, 42, 98>>, <<97, 42, 98>>, <<97, 43, 98, 42, 99>>, <<46, 42, 97, 98, 99, 46, 42>>,
               <<40, 97, 124, 98, 41, 42, 99>>, <<94, 97, 42, 36>>, <<91, 94, 10, 93, 42, 10, 91, 94, 10, 93, 42>>, <<97, 46, 42, 97>>, <<46, 42, 40, 97, 97, 124, 98, 98, 41, 46, 42>>,
               <<91, 94, 97, 98, 93, 42, 97, 91, 94, 98, 93, 42, 98>>, <<46, 42, 97, 123, 51, 125, 46, 42>>, <<92, 120, 48, 48, 42, 97>>, <<91, 94, 92, 120, 102, 102, 93, 42>>,
               <<91, 97, 45, 121, 93, 42, 122>>, <<91, 94, 97, 98, 99, 93, 43, 97>>, <<46, 42>>, <<97, 42>>, <<91, 94, 97, 93, 42, 97, 97, 42>> >>
Pat(z) == IF Chance(50) THEN OneOf(Stretchy) ELSE RPattern(IF Chance(30) THEN 2 ELSE 1, <<>>)
Small(z) == IF Chance(40) THEN OneOf(Stretchy) ELSE RPattern(1, <<>>)

Sur(r) == IF Chance(25) THEN << <<"f", "surround", r>> >> ELSE <<>>
Parse1(r, p) == << <<"fparse", r, <<>>, p>> >> \o Sur(r)

\* ---- one scanner, in any form
RECURSIVE Runs(_, _)
Runs(s, n) == IF n = 0 THEN <<>> ELSE << <<"srun", s>> \o RItems(0) >> \o Runs(s, n - 1)
Name(i) == OneOf(<< <<"s">>, <<"s">> >>)[1] \o ToString(i)

\* a scanner in register s, possibly glued from several regexps, of a multi-regexp kind; ends with s compiled
Build(s, t) ==
  LET k == Pick(1..10)
  IN IF k <= 6 THEN Parse1("a", Pat(0)) \o << <<"scompile", s, t, "a">> >>
     ELSE Parse1("a", Small(0)) \o << <<"scompile", "x", t, "a">> >> \o Parse1("b", Small(0)) \o << <<"scompile", "y", t, "b">>, <<"sglue", s, "x", "y">> >>
\* ... or given another form afterwards
Transform(s, t) ==
  LET k == Pick(1..10)
  IN IF k <= 5 THEN <<>>
     ELSE IF k = 6 /\ t = "S" THEN << <<"sconv", "n", "N", s>>, <<"sconv", s, "S", "n">> >>
     ELSE IF k = 7 THEN << <<"scopy", "c", s>>, <<"sdel", s>>, <<"scopy", s, "c">> >>
     ELSE IF k = 8 THEN << <<"ssave", "buf", s>>, <<"sload", s, "buf">> >>
     ELSE IF k = 9 /\ t \in {"S", "SM", "I", "W"} THEN << <<"ssave", "buf", s>>, <<"smmap", s, "buf">> >>
     ELSE <<>>

C04 == /\ Go /\ Profile = "C04"
  /\ \E p \in {IF Chance(40) THEN Pat(0) ELSE RPattern(2, <<>>)} :
     Add(Parse1("a", p)
         \o << <<"scompile", "s", "S", "a">>, <<"sdump", "s", <<>> >>, <<"scompile", "n", "N", "a">>, <<"sdump", "n", <<>> >>,
               <<"scompile", "sm", "SM", "a">>, <<"sdump", "sm", <<>> >>, <<"scompile", "nm", "NM", "a">>, <<"sdump", "nm", <<>> >>,
               <<"scompile", "i", "I", "a">>, <<"sdump", "i", <<>> >>, <<"scompile", "w", "W", "a">>, <<"sdump", "w", <<>> >>,
               <<"sconv", "s2", "S", "n">>, <<"sdump", "s2", <<>> >>, <<"sconv", "n2", "N", "s">>, <<"sdump", "n2", <<>> >>,
               <<"sconv", "m2", "SM", "nm">>, <<"sdump", "m2", <<>> >>, <<"sconv", "q2", "NM", "sm">>, <<"sdump", "q2", <<>> >> >>
         \o (LET its == RItems(0) IN [i \in 1..10 |-> <<"srun", OneOf(<<"s", "n", "sm", "nm", "i", "w", "s2", "n2", "m2", "q2">>)>> \o RItems(0)]))

\* ---- gluing, in trees
RECURSIVE Leaves(_, _, _)
Leaves(i, n, t) == IF i > n THEN <<>>
  ELSE (IF Chance(7) THEN << <<"sempty", ToString(i), t>> >>
        ELSE Parse1("a", Small(0)) \o << <<"scompile", ToString(i), t, "a">> >>) \o Leaves(i + 1, n, t)
C05 == /\ Go /\ Profile = "C05"
  /\ \E n \in {OneOf(<<2, 2, 3, 3, 4, 5>>)}, t \in {OneOf(Multi)}, k \in {Pick(1..8)}, c \in {Pick(1..8)}, lim \in {Pick(1..25)} :
     LET d(x) == <<"sdump", x, <<"nolang">> >>
         g(z, x, y) == << <<"sglue", z, x, y>> >>
         tree == CASE n = 2 /\ k <= 4 -> g("r", "1", "2")
                   [] n = 2 /\ k = 5 -> g("r", "1", "2") \o g("r", "r", "1")
                   [] n = 2 /\ k = 6 -> << d("1"), d("2") >> \o [i \in 1..12 |-> <<"sglue", "r", "1", "2", IF lim > 18 THEN lim - 18 + i ELSE i>>] \o << <<"sglue", "r", "1", "2", lim>>, <<"sinfo", "r">> >>
                   [] n = 2 /\ k = 7 -> g("r", "1", "1") \o << d("r"), d("2"), <<"sglue", "r", "r", "2", lim>>, <<"sinfo", "r">> >>
                   [] n = 2 /\ k = 8 -> g("1", "1", "2") \o g("r", "2", "1") \o g("r", "r", "r")
                   [] n = 3 /\ k <= 3 -> g("r", "1", "2") \o g("r", "r", "3")
                   [] n = 3 /\ k <= 6 -> g("r", "2", "3") \o g("r", "1", "r")
                   [] n = 3 -> g("r", "1", "2") \o << d("r"), d("3"), <<"sglue", "r", "3", "r", lim>> >> \o g("r", "r", "1")
                   [] n = 4 /\ k <= 4 -> g("x", "1", "2") \o g("y", "3", "4") \o g("r", "x", "y")
                   [] n = 4 -> g("r", "1", "2") \o g("r", "r", "3") \o g("r", "4", "r")
                   [] OTHER -> g("x", "1", "2") \o g("y", "3", "4") \o g("z", "5", "x") \o g("r", "y", "z")
         conv == CASE c = 1 /\ t = "S" -> << <<"sconv", "r", "N", "r">> >> [] c = 1 /\ t = "N" -> << <<"sconv", "r", "S", "r">> >>
                   [] c = 1 /\ t = "SM" -> << <<"sconv", "r", "NM", "r">> >> [] c = 1 /\ t = "NM" -> << <<"sconv", "r", "SM", "r">> >>
                   [] c = 2 -> << <<"ssave", "b", "r">>, <<"sload", "r", "b">> >>
                   [] c = 3 -> << <<"scopy", "q", "r">>, <<"sdel", "r">>, <<"sdel", "1">>, <<"scopy", "r", "q">> >>
                   [] OTHER -> <<>>
     IN Add(Leaves(1, n, t) \o tree \o << <<"sinfo", "r">> >> \o conv \o << <<"sinfo", "r">>, <<"sdump", "r", <<>> >> >> \o Runs("r", 2) \o << <<"sdump", "2", <<>> >> >>)

\* many regexps at once
RECURSIVE GlueTree(_, _, _)
GlueTree(x, lo, hi) ==
  IF lo = hi THEN << <<"fparse", "a", <<>>, OneOf(<< <<97>>, <<98>>, <<97, 98>>, <<97, 97>>, <<98, 97>>, <<97, 46>>, <<97, 42>>, <<98, 43>>, <<91, 97, 98, 93>>, <<97, 98, 99>>, <<94, 97>>, <<98, 36>>, <<99>>, <<99, 97>>,
                                                  <<46>>, <<97, 63, 98>>, <<255>>, <<91, 94, 97, 93>>, <<>>, <<97, 98, 97>>, <<98, 98, 99>>, <<98, 123, 50, 125>>, <<48>> >>)>>, <<"scompile", x, "S", "a">> >>
  ELSE LET m == Pick(lo..(hi - 1)) IN GlueTree(x \o "l", lo, m) \o GlueTree(x \o "r", m + 1, hi) \o << <<"sglue", x, x \o "l", x \o "r">>, <<"sdel", x \o "l">>, <<"sdel", x \o "r">> >>
Many == /\ Go /\ Profile = "C05many"
  /\ \E n \in {OneOf(<<12, 20, 31, 32, 33, 40>>)}, t \in {OneOf(Multi)} : \E g \in {TLCEval(GlueTree("g", 1, n))} :
     LET h == [i \in 1..Len(g) |-> IF g[i][1] = "scompile" THEN [g[i] EXCEPT ![3] = t] ELSE g[i]]
     IN Add(h \o << <<"sinfo", "g">>, <<"sdump", "g", <<>> >>, <<"ssave", "B", "g">>, <<"sempty", "r", t>>, <<"sload", "r", "B">>, <<"sdump", "r", <<>> >> >> \o Runs("g", 2))

\* products of any size, from a few states to many more than the library reckons with (the other types take too long for the largest)
RECURSIVE GcdOf(_, _)
GcdOf(x, y) == IF y = 0 THEN x ELSE GcdOf(y, x % y)
LcmOf(x, y) == (x \div GcdOf(x, y)) * y
Cycles == /\ Go /\ Profile = "C05huge"
  /\ \E ps \in {OneOf(<< <<521, 523>>, <<511, 513>>, <<512, 513>>, <<600, 601>>, <<443, 445>>, <<251, 257>>, <<281, 283>>, <<100, 101>>, <<30, 42>>, <<7, 11>>, <<6, 10, 15>>, <<61, 64, 67>>, <<1, 5>>, <<4, 1, 9>>, <<36, 48, 7>> >>)},
        tt \in {OneOf(Multi)}, k \in {Pick(1..10)} :
     \E n \in {FoldLeft(LcmOf, 1, ps)} : \E t \in {IF n > 40000 THEN "S" ELSE tt}, rs \in {TLCEval([i \in 1..Len(ps) |-> IF Chance(40) THEN 0 ELSE Pick(0..(ps[i] - 1))])} :
     \E lim \in {CASE k <= 3 -> 0 [] k = 4 -> n - 1 [] k = 5 -> n [] k = 6 -> n + 1 [] k = 7 -> n + 2 [] k = 8 -> 2 * n [] k = 9 -> 262144 [] OTHER -> 500000} :
     Add(<< <<"cycles", t, lim, ps, rs, TLCEval([i \in 1..40 |-> IF i <= Len(ps) THEN rs[i] ELSE LET j == Pick(1..6) c == Pick(1..Len(ps)) IN
              IF j = 1 THEN n ELSE IF j = 2 THEN n - 1 ELSE IF j <= 4 THEN Pick(0..(2 * n)) ELSE rs[c] + ps[c] * Pick(0..((n \div ps[c]) + 2))])>> >>)

Alphabet == /\ Go /\ Profile = "C04big"
  /\ \E n \in {OneOf(<<3, 5, 6, 7, 8>>)}, neg \in {Chance(50)}, t \in {OneOf(SingleKinds)}, k \in {Pick(1..3)} :
     Add(<< <<"fparse", "a", <<>>, <<40>> \o BitAlts(0, n, neg) \o <<41>> \o (IF k = 1 THEN <<>> ELSE IF k = 2 THEN <<36>> ELSE <<42>>) >>, <<"scompile", "s", t, "a">>, <<"sdump", "s", <<>> >>,
            <<"ssave", "B", "s">>, <<"sempty", "r", t>>, <<"sload", "r", "B">>, <<"sdump", "r", <<>> >> >> \o Runs("r", 2))

\* ---- running over texts laid out in every way
\* of any kind: built and now and then stored or copied
AnyScanner(s, t) ==
  (IF t \in {"I", "W"} THEN Parse1("a", Pat(0)) \o << <<"scompile", s, t, "a">> >> ELSE IF t \in MultiKinds THEN Build(s, t) \o Transform(s, t) ELSE MakeAny(s, t))
  \o (IF Chance(15) THEN << <<"ssave", "keep", s>>, <<"sload", s, "keep">>, <<"bclear", "keep">> >> ELSE <<>>)
Divided(w) ==    \* the letters w in pieces of every kind
  LET RECURSIVE X(_)
      X(u) == IF u = <<>> THEN <<>> ELSE LET k == Pick(1..Len(u)) IN << <<OneOf(<<"r", "g", "s", "r">>), Pick(0..15), SubSeq(u, 1, k)>> >> \o X(SubSeq(u, k + 1, Len(u)))
  IN X(w)
\* scanners without a table: the same letters divided in several ways
Ways(s, t, n) ==
  LET w == IF t \in {"K", "KS"} THEN CWord(FALSE, t = "K", Pick(0..20)) ELSE Text(0) \o Text(0) \o Text(0)
      e == t = "K" \/ (t # "KS" /\ Chance(50))
  IN << <<"srun", s>> \o (IF t # "KS" THEN << <<"B">> >> ELSE <<>>) \o << <<"s", 0, w>> >> \o (IF e THEN << <<"E">> >> ELSE <<>>) >>
     \o [i \in 1..n |-> <<"srun", s>> \o (IF t # "KS" THEN << <<"B">> >> ELSE <<>>) \o Divided(w) \o (IF e THEN << <<"E">> >> ELSE <<>>)]
C06Any == /\ Go /\ Profile = "C06"
  /\ \E t \in {OneOf(<<"H", "HN", "HM", "HNM", "C", "A", "G", "K", "KS">>)} :
     Add(AnyScanner("s", t) \o (IF t \in HalfKinds THEN << <<"sdump", "s", <<"nolang">> >> >> \o Runs("s", 5) ELSE Ways("s", t, 3) \o Ways("s", t, 3)))
C06 == /\ Go /\ Profile = "C06"
  /\ \E t \in {OneOf(<<"S", "S", "S", "N", "N", "SM", "NM", "I", "W">>)} :
     Add((IF t \in {"I", "W"} THEN Parse1("a", Pat(0)) \o << <<"scompile", "s", t, "a">> >> ELSE Build("s", t)) \o Transform("s", t)
         \o << <<"sdump", "s", <<"nolang">> >> >> \o Runs("s", 8))

\* ---- searches
Finds(s, n) == [i \in 1..n |-> <<"sfindall", s, IF Chance(25) THEN "g" ELSE Pick(0..15), IF Chance(60) THEN LongText(0) ELSE Text(0)>>]
C07 == /\ Go /\ Profile = "C07"
  /\ \E t \in {OneOf(SingleKinds)} :
     Add((IF t \in {"I", "W"} THEN Parse1("a", Pat(0)) \o << <<"scompile", "s", t, "a">> >> ELSE Build("s", t)) \o Transform("s", t)
         \o (IF Chance(85) THEN << <<"sdump", "s", <<>> >> >> ELSE <<>>)
         \o Finds("s", 6) \o [i \in 1..4 |-> <<"smatch", "s", OneOf(<<"m", "r", "rbe", "nrbe", "rst">>), IF Chance(50) THEN LongText(0) ELSE Text(0)>>])

\* ---- two scanners at once
C19 == /\ Go /\ Profile = "C19"
  /\ \E t \in {OneOf(<<"S", "N", "I", "SM">>)}, u \in {OneOf(<<"S", "N", "I", "SM">>)} :
     Add((IF t = "I" THEN Parse1("a", Pat(0)) \o << <<"scompile", "s", t, "a">> >> ELSE Build("s", t))
         \o (IF u = "I" THEN Parse1("a", Pat(0)) \o << <<"scompile", "t", u, "a">> >> ELSE Build("t", u))
         \o Transform("s", t)
         \o << <<"sdump", "s", <<"nolang">> >>, <<"sdump", "t", <<"nolang">> >> >>
         \o [i \in 1..6 |-> <<"spair", "s", "t">> \o (IF Chance(10) THEN <<>> ELSE RItems(0))])

PairKinds == <<"S", "N", "SM", "I", "W", "H", "A", "K">>
C19Any == /\ Go /\ Profile = "C19"
  /\ \E t \in {OneOf(PairKinds)}, u \in {OneOf(PairKinds)} :
     LET RECURSIVE X(_)
         X(n) == IF n = 0 THEN <<>> ELSE LET its == IF Chance(40) THEN RItems(0) ELSE (IF Chance(60) THEN << <<"B">> >> ELSE <<>>) \o Divided(CWord(FALSE, t = "K" \/ u = "K", Pick(0..12))) \o (IF Chance(60) THEN << <<"E">> >> ELSE <<>>)
                 IN << <<"srun", "s">> \o its, <<"srun", "t">> \o its, <<"spair", "s", "t">> \o its >> \o X(n - 1)
     IN Add(AnyScanner("s", t) \o AnyScanner("t", u) \o X(5))

\* ---- dead states
C20 == /\ Go /\ Profile = "C20"
  /\ \E t \in {OneOf(Multi)} : \E p \in {RPattern(IF Chance(60) THEN 1 ELSE 2, <<"a">>)}, q \in {RPattern(1, <<"a">>)} :
     LET h(r) == IF Chance(25) THEN << <<"f", "surround", r>> >> ELSE IF Chance(25) THEN << <<"f", "appany", r>> >>
                 ELSE IF Chance(20) THEN << <<"f", "not", r>> >> ELSE <<>>
     IN Add(<< <<"fparse", "a", <<"a">>, p>> >> \o h("a") \o << <<"scompile", "s", t, "a">>, <<"sdump", "s", <<"dead">> >> >>
            \o << <<"fparse", "b", <<"a">>, q>> >> \o h("b") \o << <<"scompile", "t", t, "b">> >>
            \o Transform("t", t) \o << <<"sdump", "t", <<"dead">> >> >>
            \o << <<"sglue", "g", "s", "t">> >> \o Transform("g", t) \o << <<"sdump", "g", <<>> >> >>
            \o (IF Chance(50) THEN << <<"sglue", "g", "g", "s">>, <<"sdump", "g", <<>> >> >> ELSE <<>>)
            \o (IF t = "S" THEN << <<"sconv", "n", "N", "g">>, <<"sdump", "n", <<>> >> >> ELSE <<>>)
            \o Runs("g", 3) \o Runs("s", 2))

Next == C04 \/ C05 \/ Many \/ Cycles \/ Alphabet \/ C06 \/ C06 \/ C06Any \/ C07 \/ C19 \/ C19Any \/ C20
Spec == Init /\ [][Next]_<<hist, phase>>
Emit == phase = "done" => PrintT(CaseText(hist))
=============================================================================
