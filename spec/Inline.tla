------------------------------ MODULE Inline ------------------------------
(* The generator tool: a C++ source text in which every expression           *)
(* PIRE_REGEXP("pattern", "flags", ...) is replaced by a scanner.            *)
EXTENDS PireMachine

AsciiText == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([x \in {SubSeq(AsciiText, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(AsciiText, i, i) = x])
Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

NL == 10  QUOTE == 34  APOS == 39  STARC == 42  SLASH == 47  BACK == 92
IsSpace(c) == c \in {32, 9, 13, 10, 11, 12}
IsDigit(c) == c \in 48..57
IsOctal(c) == c \in 48..55
IsHex(c) == IsDigit(c) \/ c \in 97..102 \/ c \in 65..70
ValueOfHex(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
WordLetter(c) == IsDigit(c) \/ c \in 97..122 \/ c \in 65..90 \/ c = 95

CharAt(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
\* the first place from i on where P holds, or behind the text
Place(s, i, P(_)) == LET ok == {j \in i..Len(s) : P(j)} IN IF ok = {} THEN Len(s) + 1 ELSE CHOOSE j \in ok : \A k \in ok : j <= k

\* the place behind a token that starts at i; 0: it does not end
CommentEnd(s, i) == LET e == Place(s, i + 2, LAMBDA j : s[j] = STARC /\ CharAt(s, j + 1) = SLASH) IN IF e > Len(s) THEN 0 ELSE e + 2
LineEnd(s, i) == LET e == Place(s, i, LAMBDA j : s[j] = NL) IN IF e > Len(s) THEN 0 ELSE e + 1
RECURSIVE QuotedEnd(_, _, _)
QuotedEnd(s, i, q) == IF i > Len(s) THEN 0 ELSE IF s[i] = q THEN i + 1 ELSE QuotedEnd(s, IF s[i] = BACK THEN i + 2 ELSE i + 1, q)
WordEnd(s, i) == Place(s, i, LAMBDA j : ~WordLetter(s[j]))

\* the bytes a string literal stands for; b..e are inside the quotes.  <<well-formed, bytes>>
EscapeOf == (97 :> 7) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@ (118 :> 11) @@ (34 :> 34) @@ (39 :> 39) @@ (92 :> 92) @@ (63 :> 63)
RECURSIVE NumberOf(_, _, _, _)
NumberOf(s, b, e, base) == IF e < b THEN 0 ELSE NumberOf(s, b, e - 1, base) * base + ValueOfHex(s[e])
RECURSIVE LiteralOf(_, _, _, _)
LiteralOf(s, b, e, acc) ==
  IF b > e THEN <<TRUE, acc>>
  ELSE IF s[b] # BACK THEN LiteralOf(s, b + 1, e, Append(acc, s[b]))
  ELSE LET c == CharAt(s, b + 1)
       IN IF c \in DOMAIN EscapeOf THEN LiteralOf(s, b + 2, e, Append(acc, EscapeOf[c]))
          ELSE IF c = NL THEN LiteralOf(s, b + 2, e, acc)
          ELSE IF IsOctal(c) THEN LET x == Place(s, b + 1, LAMBDA j : ~IsOctal(s[j]) \/ j > b + 3 \/ j > e) - 1
                                IN LiteralOf(s, x + 1, e, Append(acc, NumberOf(s, b + 1, x, 8)))
          ELSE IF c = 120 THEN LET x == Place(s, b + 2, LAMBDA j : ~IsHex(s[j]) \/ j > e) - 1
                               IN IF x < b + 2 THEN <<FALSE, <<>> >> ELSE LiteralOf(s, x + 1, e, Append(acc, NumberOf(s, b + 2, x, 16)))
          ELSE <<FALSE, <<>> >>

\* the arguments of an expression, from behind its bracket: <<well-formed, arguments, place behind>>
RECURSIVE Arguments(_, _, _)
Arguments(s, i, args) ==
  LET c == CharAt(s, i)
  IN IF i > Len(s) THEN <<FALSE, args, i>>
     ELSE IF IsSpace(c) THEN Arguments(s, i + 1, args)
     ELSE IF c = SLASH /\ CharAt(s, i + 1) = STARC THEN LET e == CommentEnd(s, i) IN IF e = 0 THEN <<FALSE, args, i>> ELSE Arguments(s, e, args)
     ELSE IF c = SLASH /\ CharAt(s, i + 1) = SLASH THEN LET e == LineEnd(s, i) IN IF e = 0 THEN <<FALSE, args, i>> ELSE Arguments(s, e, args)
     ELSE IF c = 44 THEN Arguments(s, i + 1, Append(args, <<>>))
     ELSE IF c = 41 THEN <<TRUE, args, i + 1>>
     ELSE IF c = QUOTE
     THEN LET e == QuotedEnd(s, i + 1, QUOTE)
          IN IF e = 0 THEN <<FALSE, args, i>>
             ELSE LET l == LiteralOf(s, i + 1, e - 2, <<>>)
                  IN IF l[1] THEN Arguments(s, e, [args EXCEPT ![Len(args)] = @ \o l[2]]) ELSE <<FALSE, args, i>>
     ELSE <<FALSE, args, i>>

MacroName == Codes("PIRE_REGEXP")
\* the pieces of a source text: <<well-formed, texts, expressions <<arguments, place behind>> >>
RECURSIVE Pieces(_, _, _, _, _)
Pieces(s, from, i, texts, exprs) ==
  LET c == CharAt(s, i)
      On(e) == IF e = 0 THEN Pieces(s, from, Len(s) + 1, texts, exprs) ELSE Pieces(s, from, e, texts, exprs)
  IN IF i > Len(s) THEN <<TRUE, Append(texts, SubSeq(s, from, Len(s))), exprs>>
     ELSE IF c = SLASH /\ CharAt(s, i + 1) = STARC
     THEN LET e == CommentEnd(s, i) IN IF e = 0 THEN <<FALSE, texts, exprs>> ELSE On(e)
     ELSE IF c = SLASH /\ CharAt(s, i + 1) = SLASH THEN On(LineEnd(s, i))
     ELSE IF c = QUOTE THEN On(QuotedEnd(s, i + 1, QUOTE))
     ELSE IF c = APOS THEN On(QuotedEnd(s, i + 1, APOS))
     ELSE IF WordLetter(c)
     THEN LET e == WordEnd(s, i)
              o == Place(s, e, LAMBDA j : ~IsSpace(s[j]))
          IN IF SubSeq(s, i, e - 1) = MacroName /\ CharAt(s, o) = 40
             THEN LET a == Arguments(s, o + 1, << <<>> >>)
                  IN IF ~a[1] THEN <<FALSE, texts, exprs>>
                     ELSE Pieces(s, a[3], a[3], Append(texts, SubSeq(s, from, i - 1)), Append(exprs, <<a[2], a[3]>>))
             ELSE On(e)
     ELSE On(i + 1)

FlagCode == [i |-> 105, u |-> 117, s |-> 115, a |-> 97, g |-> 103, r |-> 114]
\* a pattern with its flags: <<well-formed, language>>
InlineParsed(p, fl) ==
  LET f == Elems(fl)
      d == IF FlagCode.u \in f THEN Decode(p) ELSE <<\A i \in 1..Len(p) : p[i] < 128, p>>
      x == IF d[1] THEN Parse({n \in {"i", "u", "a"} : FlagCode[n] \in f}, d[2]) ELSE <<FALSE, None>>
      r == IF FlagCode.r \in f THEN Rev(x[2]) ELSE x[2]
  IN IF ~x[1] \/ f \ {FlagCode[n] : n \in DOMAIN FlagCode} # {} \/ {FlagCode.g, FlagCode.s} \subseteq f THEN <<FALSE, None>>
     ELSE <<TRUE, IF FlagCode.g \in f THEN Cat(Not(Surrounded(r)), r) ELSE IF FlagCode.s \in f THEN Surrounded(r) ELSE r>>
\* the regexps of an expression: <<well-formed, languages>>
InlineParts(args) ==
  IF Len(args) % 2 = 1 THEN <<FALSE, <<>> >>
  ELSE LET ps == [k \in 1..(Len(args) \div 2) |-> InlineParsed(args[2 * k - 1], args[2 * k])]
       IN <<\A k \in DOMAIN ps : ps[k][1], [k \in DOMAIN ps |-> ps[k][2]]>>
\* what the tool makes of a source: <<well-formed, texts, scanners, lines, UTF-8>>
InlineOf(s) ==
  LET p == Pieces(s, 1, 1, <<>>, <<>>)
      xs == TLCEval([k \in 1..Len(p[3]) |-> InlineParts(p[3][k][1])])
      line(k) == 1 + Cardinality({i \in 1..(p[3][k][2] - 1) : s[i] = NL})
  IN <<p[1] /\ \A k \in DOMAIN xs : xs[k][1], p[2], [k \in DOMAIN xs |-> xs[k][2]], [k \in DOMAIN xs |-> line(k)],
       \* is any of its patterns read as UTF-8
       [k \in DOMAIN xs |-> \E j \in 1..Len(p[3][k][1]) : j % 2 = 0 /\ FlagCode.u \in Elems(p[3][k][1][j])]>>
=============================================================================
