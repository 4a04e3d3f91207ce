------------------------------ MODULE Syntax ------------------------------
(* The documented syntax of patterns: Parse(opts, p) is <<TRUE, language>>   *)
(* for a well-formed pattern p (a sequence of code points), <<FALSE, ..>>    *)
(* for a malformed one.  opts is a set of option letters:                    *)
(*   i  case-insensitive        a  & and ~ operators                         *)
(*   g  similar glyphs          u  UTF-8 (otherwise only ASCII denotes)      *)
EXTENDS Utf8, CaseTable

\* ---- characters
OrC == 124  OpC == 40  ClC == 41  DotC == 46  StarC == 42  PlusC == 43  QstC == 63  BolC == 94
EolC == 36  BsC == 92  LbC == 91  RbC == 93  LcC == 123  RcC == 125  MinC == 45  AndC == 38
NotC == 126  XC == 120  ComC == 44

Digit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1

Escapable == {OrC, OpC, ClC, DotC, StarC, PlusC, QstC, BolC, EolC, BsC, LbC, RbC, LcC, RcC}
ClassEscapable == {BolC, LbC, RbC, MinC, BsC, StarC, PlusC, LcC, RcC, OpC, ClC, EolC, QstC, DotC, AndC, NotC}

\* ---- character classes
Latin    == (65..90) \cup (97..122)
Cyrillic == (1040..1103) \cup {1025, 1105}
ClassOf ==
  [c \in {108, 99, 119, 100, 115, 110, 114, 116} |->
     CASE c = 108 -> Latin                                  \* l
       [] c = 99  -> Cyrillic                               \* c
       [] c = 119 -> Latin \cup Cyrillic                    \* w
       [] c = 100 -> 48..57                                 \* d
       [] c = 115 -> {32, 9, 13, 10, 160}                   \* s
       [] c = 110 -> {10} [] c = 114 -> {13} [] c = 116 -> {9}]
ClassLetters == DOMAIN ClassOf
IsClass(c)    == c \in ClassLetters \/ (c + 32) \in ClassLetters
IsNegClass(c) == (c + 32) \in ClassLetters

\* ---- equivalent characters
GlyphGroups == {
  {65, 1040}, {66, 1042}, {67, 1057}, {69, 1045, 1025}, {72, 1053}, {75, 1050}, {77, 1052}, {79, 1054},
  {80, 1056}, {84, 1058}, {88, 1061}, {97, 1072}, {99, 1089}, {101, 1077, 1105}, {109, 1090}, {111, 1086},
  {112, 1088}, {117, 1080}, {120, 1093}, {121, 1091} }
Glyph(c) == UNION {g \in GlyphGroups : c \in g}

Equivalents(opts, S) ==
  LET T == IF "i" \in opts THEN S \cup UNION {Case(c) : c \in S} ELSE S
  IN IF "g" \in opts THEN T \cup UNION {Glyph(c) : c \in T} ELSE T

\* ---- languages of one term
Dot(opts) == IF "u" \in opts THEN Utf8Dot ELSE DotSym

CharsNeg(opts, S, neg) ==
  IF "u" \in opts
  THEN IF neg THEN And({Utf8Dot, Not(Utf8Set(S))}) ELSE Utf8Set(S)
  ELSE LET A == S \cap (0..127)
       IN IF neg THEN Sym(Intervals((0..255) \ A)) ELSE Sym(Intervals(A))

\* a set of characters, with escapes for classes kept apart in K
Chars(opts, S, K, neg) ==     \* <<ok, language>>
  LET negs == {k \in K : IsNegClass(k)}
      cls(k) == ClassOf[IF IsNegClass(k) THEN k + 32 ELSE k]
      T == (IF "i" \in opts THEN S \cup UNION {Case(c) : c \in S} ELSE S) \cup UNION {cls(k) : k \in K}
      U == IF "g" \in opts THEN T \cup UNION {Glyph(c) : c \in T} ELSE T
  IN IF negs # {} /\ (negs # K \/ neg) THEN <<FALSE, None>>
     ELSE <<TRUE, CharsNeg(opts, U, neg \/ negs # {})>>

\* ---- \x: <<ok, code, next position>>; i is the position after the x
HexBad == <<FALSE, 0, 0>>
RECURSIVE HexRun(_, _, _, _)
HexRun(p, i, v, n) ==        \* hexadecimal digits up to a closing brace
  IF i > Len(p) THEN HexBad
  ELSE IF p[i] = RcC THEN (IF n = 0 THEN HexBad ELSE <<v <= MaxUnicode, v, i + 1>>)
  ELSE IF HexVal(p[i]) < 0 THEN HexBad
  ELSE HexRun(p, i + 1, IF v > MaxUnicode THEN v ELSE v * 16 + HexVal(p[i]), n + 1)
Hex(p, i) ==
  IF i > Len(p) THEN HexBad
  ELSE IF p[i] = LcC THEN HexRun(p, i + 1, 0, 0)
  ELSE IF i + 1 > Len(p) THEN HexBad
  ELSE IF HexVal(p[i]) >= 0 /\ HexVal(p[i + 1]) >= 0
       THEN <<TRUE, HexVal(p[i]) * 16 + HexVal(p[i + 1]), i + 2>>
  ELSE HexBad

\* ---- bracketed sets.  A set element: <<ok, kind, value, next>>, kinds:
\*      "c" a plain character (may start a range), "m" an escaped metacharacter, "k" a class, "x" a code,
\*      "end" the closing bracket
Elem(p, i) ==
  IF i > Len(p) THEN <<FALSE, "err", 0, 0>>
  ELSE IF p[i] = RbC THEN <<TRUE, "end", 0, i + 1>>
  ELSE IF p[i] # BsC THEN <<TRUE, IF p[i] \in {BolC, LbC, MinC} THEN "s" ELSE "c", p[i], i + 1>>
  ELSE IF i + 1 > Len(p) THEN <<FALSE, "err", 0, 0>>
  ELSE LET e == p[i + 1]
       IN IF e = XC THEN LET h == Hex(p, i + 2) IN <<h[1], "x", h[2], h[3]>>
          ELSE IF e \in {BolC, LbC, RbC, MinC, BsC} THEN <<TRUE, "c", e, i + 2>>
          ELSE IF e \in ClassEscapable THEN <<TRUE, "m", e, i + 2>>
          ELSE IF IsClass(e) THEN <<TRUE, "k", e, i + 2>>
          ELSE <<FALSE, "err", 0, 0>>

RECURSIVE SetBody(_, _, _, _, _)
SetBody(p, i, S, K, bad) ==    \* <<ok, S, K, next>>
  LET e == Elem(p, i)
  IN IF ~e[1] THEN <<FALSE, S, K, 0>>
     ELSE IF e[2] = "end" THEN <<TRUE, S, K, e[4]>>
     ELSE IF e[2] \in {"c", "x"} /\ e[4] <= Len(p) /\ p[e[4]] = MinC
          THEN \* a range
               LET j == e[4] + 1
                   f == Elem(p, j)
               IN IF ~f[1] \/ f[2] \notin {"c", "x"} THEN <<FALSE, S, K, 0>>
                  ELSE SetBody(p, f[4], S \cup (e[3]..f[3]), K, bad)
     ELSE IF e[2] = "k" THEN SetBody(p, e[4], S, K \cup {e[3]}, bad)
     ELSE SetBody(p, e[4], S \cup {e[3]}, K, bad)

\* ---- the grammar.  Results: <<ok, language, next>>
Bad == <<FALSE, None, 0>>
RECURSIVE ParseAlt(_, _, _)
RECURSIVE ParseAltRest(_, _, _)
RECURSIVE ParseAnd(_, _, _)
RECURSIVE ParseAndRest(_, _, _)
RECURSIVE ParseCat(_, _, _, _)

At(p, i, c) == i <= Len(p) /\ p[i] = c

\* <<ok, language, next>>
Term(opts, p, i) ==
  LET c == p[i]
  IN CASE c = DotC -> <<TRUE, Dot(opts), i + 1>>
       [] c = BolC -> <<TRUE, Ch(BeginMark), i + 1>>
       [] c = EolC -> <<TRUE, Ch(EndMark), i + 1>>
       [] c = OpC  -> LET r == ParseAlt(opts, p, i + 1)
                      IN IF r[1] /\ At(p, r[3], ClC) THEN <<TRUE, r[2], r[3] + 1>> ELSE Bad
       [] c \in {StarC, PlusC, QstC, LcC} -> Bad
       [] c = LbC  -> LET neg == At(p, i + 1, BolC)
                          b == SetBody(p, IF neg THEN i + 2 ELSE i + 1, {}, {}, FALSE)
                          l == Chars(opts, b[2], b[3], neg)
                      IN IF b[1] /\ l[1] THEN <<TRUE, l[2], b[4]>> ELSE Bad
       [] c = BsC  -> IF i + 1 > Len(p) THEN Bad
                      ELSE LET e == p[i + 1]
                           IN IF e = XC THEN LET h == Hex(p, i + 2)
                                             IN IF h[1] THEN <<TRUE, Chars(opts, {h[2]}, {}, FALSE)[2], h[3]>> ELSE Bad
                              ELSE IF e \in Escapable \/ ("a" \in opts /\ e \in {AndC, NotC})
                                   THEN <<TRUE, Chars(opts, {e}, {}, FALSE)[2], i + 2>>
                              ELSE IF IsClass(e) THEN <<TRUE, Chars(opts, {}, {e}, FALSE)[2], i + 2>>
                              ELSE Bad
       [] OTHER -> <<TRUE, Chars(opts, {c}, {}, FALSE)[2], i + 1>>

MaxCount == 2147483647
RECURSIVE Number(_, _, _)
Number(p, i, v) ==         \* <<value, next>>, value -1 when it does not fit
  IF i <= Len(p) /\ Digit(p[i])
  THEN Number(p, i + 1, IF v = -1 \/ v > (MaxCount - (p[i] - 48)) \div 10 THEN -1 ELSE v * 10 + (p[i] - 48))
  ELSE <<v, i>>

\* a repetition at i: <<kind, lo, hi, next>>, kind "none", "bad" or "ok"
Count(p, i) ==
  IF i > Len(p) THEN <<"none", 0, 0, i>>
  ELSE IF p[i] = StarC THEN <<"ok", 0, -1, i + 1>>
  ELSE IF p[i] = PlusC THEN <<"ok", 1, -1, i + 1>>
  ELSE IF p[i] = QstC THEN <<"ok", 0, 1, i + 1>>
  ELSE IF p[i] # LcC THEN <<"none", 0, 0, i>>
  ELSE IF ~(i < Len(p) /\ Digit(p[i + 1])) THEN <<"bad", 0, 0, i>>
  ELSE LET n == Number(p, i + 1, 0)
       IN IF n[1] = -1 THEN <<"bad", 0, 0, i>>
          ELSE IF At(p, n[2], RcC) THEN <<"ok", n[1], n[1], n[2] + 1>>
          ELSE IF ~At(p, n[2], ComC) THEN <<"bad", 0, 0, i>>
          ELSE IF At(p, n[2] + 1, RcC) THEN <<"ok", n[1], -1, n[2] + 2>>
          ELSE IF ~(n[2] < Len(p) /\ Digit(p[n[2] + 1])) THEN <<"bad", 0, 0, i>>
          ELSE LET m == Number(p, n[2] + 1, 0)
               IN IF m[1] = -1 \/ m[1] < n[1] \/ ~At(p, m[2], RcC) THEN <<"bad", 0, 0, i>>
                  ELSE <<"ok", n[1], m[1], m[2] + 1>>

\* concatenation; acc is the language so far
ParseCat(opts, p, i, acc) ==
  IF i > Len(p) \/ p[i] \in {OrC, ClC} \/ ("a" \in opts /\ p[i] = AndC) THEN <<TRUE, acc, i>>
  ELSE IF "a" \in opts /\ p[i] = NotC THEN Bad
  ELSE LET t == Term(opts, p, i)
       IN IF ~t[1] THEN Bad
          ELSE LET c == Count(p, t[3])
               IN CASE c[1] = "bad"  -> Bad
                    [] c[1] = "none" -> ParseCat(opts, p, t[3], Cat(acc, t[2]))
                    [] OTHER -> LET again == Count(p, c[4])
                                IN IF again[1] # "none" THEN Bad
                                   ELSE ParseCat(opts, p, c[4], Cat(acc, Repeat(t[2], c[2], c[3])))

ParseNot(opts, p, i) ==
  IF "a" \in opts /\ At(p, i, NotC)
  THEN LET r == ParseCat(opts, p, i + 1, Eps) IN IF r[1] THEN <<TRUE, Not(r[2]), r[3]>> ELSE Bad
  ELSE ParseCat(opts, p, i, Eps)

ParseAndRest(opts, p, r) ==
  IF ~r[1] THEN Bad
  ELSE IF "a" \in opts /\ At(p, r[3], AndC)
       THEN LET s == ParseNot(opts, p, r[3] + 1)
            IN IF s[1] THEN ParseAndRest(opts, p, <<TRUE, And({r[2], s[2]}), s[3]>>) ELSE Bad
       ELSE r
ParseAnd(opts, p, i) == ParseAndRest(opts, p, ParseNot(opts, p, i))

ParseAltRest(opts, p, r) ==
  IF ~r[1] THEN Bad
  ELSE IF At(p, r[3], OrC)
       THEN LET s == ParseAnd(opts, p, r[3] + 1)
            IN IF s[1] THEN ParseAltRest(opts, p, <<TRUE, Alt({r[2], s[2]}), s[3]>>) ELSE Bad
       ELSE r
ParseAlt(opts, p, i) == ParseAltRest(opts, p, ParseAnd(opts, p, i))

Parse(opts, p) ==
  LET r == ParseAlt(opts, p, 1)
  IN IF r[1] /\ r[3] = Len(p) + 1 THEN <<TRUE, r[2]>> ELSE <<FALSE, None>>
=============================================================================
