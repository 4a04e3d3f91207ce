------------------------------ MODULE GenBase ------------------------------
(* Building blocks of the generating specifications: random patterns, texts  *)
(* and option sets.  Randomness comes from TLC (seeded by -seed).            *)
EXTENDS PireMachine, TLC, Json

Pick(X) == RandomElement(X)
Chance(n) == RandomElement(1..100) <= n
OneOf(s) == s[RandomElement(1..Len(s))]

Rep(c, n) == [i \in 1..n |-> c]

Has(o, x) == x \in Elems(o)

\* ---- patterns, for the options o (a sequence of option letters)
PlainLits == <<97, 97, 97, 98, 98, 99, 65, 48, 32, 45, 44, 47, 58, 10, 127>>
UniLits   == <<97, 98, 233, 1078, 1046, 8364, 128512, 2047, 2048, 255, 128, 65535, 65536, 1114111>>
CaseLits  == <<97, 65, 98, 66, 122, 90, 91, 96, 123, 64, 48>>
UniCase   == <<97, 65, 233, 201, 1078, 1046, 1025, 1105, 969, 937, 255, 376, 1103, 223>>
GlyphLits == <<65, 1040, 99, 1089, 111, 1086, 1105, 69, 120, 121, 98, 1041, 97>>

RLit(o) ==
  IF Has(o, "g") /\ Chance(60) THEN OneOf(GlyphLits)
  ELSE IF Has(o, "u") /\ Has(o, "i") /\ Chance(50) THEN OneOf(UniCase)
  ELSE IF Has(o, "u") /\ Chance(40) THEN OneOf(UniLits)
  ELSE IF Has(o, "i") /\ Chance(50) THEN OneOf(CaseLits)
  ELSE OneOf(PlainLits)

HexDigit == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
UpHex(c) == IF c >= 97 /\ Chance(30) THEN c - 32 ELSE c
RECURSIVE HexOf(_, _)
HexOf(c, n) == IF n = 0 THEN <<>> ELSE Append(HexOf(c \div 16, n - 1), UpHex(HexDigit[(c % 16) + 1]))
HexLen(c) == IF c < 16 THEN 1 ELSE IF c < 256 THEN 2 ELSE IF c < 4096 THEN 3 ELSE IF c < 65536 THEN 4 ELSE 6
RHex(c) == IF c < 256 /\ Chance(60) THEN <<92, 120>> \o HexOf(c, 2)
           ELSE <<92, 120, 123>> \o HexOf(c, HexLen(c) + OneOf(<<0, 0, 1, 3>>)) \o <<125>>

Plain(c) == c \notin {124, 40, 41, 46, 42, 43, 63, 94, 36, 92, 91, 93, 123, 125}
SetPlain(c) == c \notin {94, 45, 91, 92, 93}

RClass(o) == <<92, OneOf(<<100, 119, 108, 115, 110, 116, 114, 100, 119>>) + (IF Chance(25) THEN -32 ELSE 0)>>
RPosClass(z) == <<92, OneOf(<<100, 115, 110, 116, 119, 108, 99>>)>>
REscaped(z) == <<92, OneOf(<<46, 42, 43, 63, 124, 40, 41, 91, 93, 123, 125, 94, 36, 92>>)>>

RSetChar(o) ==
  LET k == Pick(1..10)
  IN IF k <= 7 THEN (LET c == RLit(o) IN IF SetPlain(c) THEN <<c>> ELSE <<98>>)
     ELSE IF k = 8 THEN RHex(RLit(o))
     ELSE IF k = 9 THEN <<92, OneOf(<<94, 45, 91, 93, 92, 46, 42, 40, 41, 43, 63, 123, 125, 36, 38, 126>>)>>
     ELSE <<OneOf(<<46, 42, 40, 124, 36, 38, 126>>)>>
RRange(o) ==
  LET k == IF Has(o, "u") THEN Pick(1..13) ELSE Pick(1..7)
  IN CASE k = 1 -> <<97, 45, 98>> [] k = 2 -> <<97, 45, 99>> [] k = 3 -> <<48, 45, 57>> [] k = 4 -> <<65, 45, 91>>
       [] k = 5 -> <<98, 45, 122>> [] k = 6 -> RHex(Pick(0..40)) \o <<45>> \o RHex(Pick(40..100))
       [] k = 7 -> <<97, 45, 97>> [] k = 8 -> <<1072, 45, 1080>> [] k = 9 -> <<126, 45, 130>>
       [] k = 10 -> RHex(Pick(2030..2047)) \o <<45>> \o RHex(Pick(2047..2070))
       [] k = 11 -> RHex(Pick(65500..65535)) \o <<45>> \o RHex(Pick(65535..65560))
       [] k = 12 -> <<1030, 45, 1035>> [] k = 13 -> <<8360, 45, 8365>>
RECURSIVE RSetBody(_, _)
RSetBody(o, n) ==
  IF n = 0 THEN <<>>
  ELSE (LET k == Pick(1..10)
        IN IF k <= 6 THEN RSetChar(o) ELSE IF k <= 9 THEN RRange(o) ELSE RPosClass(0)) \o RSetBody(o, n - 1)
RSet(o) == (IF Chance(30) THEN <<91, 94>> ELSE <<91>>) \o RSetBody(o, OneOf(<<1, 1, 2, 2, 3>>)) \o <<93>>

RRep(z) ==
  LET k == Pick(1..20)
  IN IF k <= 7 THEN <<42>> ELSE IF k <= 11 THEN <<43>> ELSE IF k <= 15 THEN <<63>>
     ELSE IF k = 16 THEN <<123, OneOf(<<48, 49, 50, 50, 51, 51, 52>>), 125>>
     ELSE IF k = 17 THEN <<123, Pick(48..50), 44, 125>>
     ELSE LET n == Pick(0..2) IN <<123, 48 + n, 44, 48 + n + Pick(0..2), 125>>

RECURSIVE RAtom(_, _)
RECURSIVE RCat(_, _, _)
RECURSIVE RAlt(_, _)
RAtom(d, o) ==
  LET k == Pick(1..40)
  IN IF k <= 17 THEN (LET c == RLit(o) IN IF Plain(c) THEN <<c>> ELSE <<97>>)
     ELSE IF k <= 20 THEN <<46>>
     ELSE IF k <= 25 THEN RSet(o)
     ELSE IF k <= 27 THEN RClass(o)
     ELSE IF k = 28 THEN REscaped(0)
     ELSE IF k = 29 THEN RHex(RLit(o))
     ELSE IF k = 30 THEN <<OneOf(<<94, 36>>)>>
     ELSE IF d = 0 THEN <<OneOf(<<97, 98>>)>>
     ELSE <<40>> \o RAlt(d - 1, o) \o <<41>>
RCat(d, o, n) ==
  IF n = 0 THEN <<>> ELSE RAtom(d, o) \o (IF Chance(35) THEN RRep(0) ELSE <<>>) \o RCat(d, o, n - 1)
RConj(d, o) ==
  LET x == (IF Has(o, "a") /\ Chance(20) THEN <<126>> ELSE <<>>) \o RCat(d, o, OneOf(<<1, 2, 2, 3>>))
  IN IF Has(o, "a") /\ Chance(25) THEN x \o <<38>> \o (IF Chance(30) THEN <<126>> ELSE <<>>) \o RCat(d, o, Pick(1..2)) ELSE x
RAlt(d, o) ==
  LET k == Pick(1..20)
  IN IF k = 1 THEN <<>> ELSE IF k <= 14 THEN RConj(d, o)
     ELSE IF k <= 18 THEN RConj(d, o) \o <<124>> \o RConj(d, o)
     ELSE IF k = 19 THEN RConj(d, o) \o <<124>> \o RConj(d, o) \o <<124>> \o RCat(d, o, 1)
     ELSE RConj(d, o) \o <<124>>
\* anchors and .* around, now and then
RPattern(d, o) ==
  LET k == Pick(1..20)
  IN (IF k <= 2 THEN <<94>> ELSE IF k = 3 THEN <<46, 42>> ELSE IF k = 4 THEN <<94, 46, 42>> ELSE <<>>)
     \o (IF k \in {1, 2, 3, 4, 5} THEN RCat(d, o, OneOf(<<1, 2, 3>>)) ELSE RAlt(d, o))
     \o (IF k \in {2, 5} THEN <<36>> ELSE IF k = 3 THEN <<46, 42>> ELSE <<>>)

\* a pattern spoilt in one place
Metas == <<40, 41, 91, 93, 123, 125, 42, 43, 63, 124, 92, 94, 45, 44, 48, 57, 46, 38, 126, 120, 100, 68, 113, 36>>
Spoil(p) ==
  LET i == Pick(1..(Len(p) + 1))
      k == Pick(1..4)
  IN IF k = 1 \/ p = <<>> \/ i > Len(p) THEN SubSeq(p, 1, i - 1) \o <<OneOf(Metas)>> \o SubSeq(p, i, Len(p))
     ELSE IF k = 2 THEN SubSeq(p, 1, i - 1) \o SubSeq(p, i + 1, Len(p))
     ELSE IF k = 3 THEN SubSeq(p, 1, i - 1) \o <<OneOf(Metas)>> \o SubSeq(p, i + 1, Len(p))
     ELSE SubSeq(p, 1, i) \o SubSeq(p, i, Len(p))

\* ---- texts: stretches of equal letters
Letter(o) == LET k == Pick(1..10) IN IF k <= 7 THEN OneOf(<<97, 97, 97, 98, 98, 99>>) ELSE IF k = 8 THEN OneOf(<<48, 32, 10, 65>>)
                ELSE IF k = 9 THEN Pick(0..255) ELSE OneOf(<<0, 127, 128, 255, 45>>)
RECURSIVE RText(_)
RText(n) == IF n = 0 THEN <<>> ELSE Rep(Letter(<<>>), OneOf(<<1, 1, 1, 1, 2, 2, 3>>)) \o RText(n - 1)
LongLens == <<1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 64, 65, 80, 100>>
RECURSIVE RLong(_)
RLong(n) == IF n = 0 THEN <<>> ELSE Rep(Letter(<<>>), IF Chance(60) THEN OneOf(LongLens) ELSE 1) \o RLong(n - 1)
Text(z) == RText(Pick(0..5))
LongText(z) == RLong(Pick(1..5))
Item(z) == <<IF Chance(25) THEN "g" ELSE "r", Pick(0..15), IF Chance(70) THEN LongText(0) ELSE Text(0)>>
RECURSIVE Items(_)
Items(n) == IF n = 0 THEN <<>> ELSE <<Item(0)>> \o Items(n - 1)
RItems(z) == (IF Chance(70) THEN << <<"B">> >> ELSE <<>>) \o Items(Pick(1..4)) \o (IF Chance(60) THEN << <<"E">> >> ELSE <<>>)

\* letters which are all different: the i-th letter of the alphabet after every letter with the i-th bit
LetterOf(i) == 97 + i
BitSet(i, neg) == LET h == [c \in 0..255 |-> IF (c \div 2^i) % 2 = 1 THEN <<92, 120, HexDigit[(c \div 16) + 1], HexDigit[(c % 16) + 1]>> ELSE <<>>]
             IN (IF neg THEN <<91, 94>> ELSE <<91>>) \o FoldLeft(LAMBDA x, c : x \o h[c], <<>>, [k \in 1..256 |-> k - 1]) \o <<93>>
RECURSIVE BitAlts(_, _, _)
BitAlts(i, n, neg) == BitSet(i, neg) \o <<LetterOf(i)>> \o (IF i + 1 = n THEN <<>> ELSE <<124>> \o BitAlts(i + 1, n, neg))

CaseText(h) == "CASE " \o ToJson(h)
=============================================================================
