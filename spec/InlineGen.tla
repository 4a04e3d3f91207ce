----------------------------- MODULE InlineGen -----------------------------
(* Source texts for the generator tool: code, comments, literals and         *)
(* expressions, spelled in many ways, well-formed or not.                    *)
EXTENDS GenBase, Inline
CONSTANTS Profile

VARIABLES hist, phase
Init == hist = <<>> /\ phase = "go"

Quoted(x) == <<34>> \o x \o <<34>>
Inside == Codes("PIRE_REGEXP(") \o Quoted(<<97>>) \o Codes(", ") \o Quoted(<<>>) \o Codes(")")
RECURSIVE Several(_, _)
Several(kind, n) == IF n = 0 THEN <<>>
  ELSE (LET k == Pick(1..12)
        IN CASE kind = "comment" ->    \* never a star and a slash
                  (IF k <= 3 THEN <<42>> \o OneOf(<< <<42, 9>>, <<32>>, <<10>>, <<97>>, <<42, 42, 98>>, <<34>> >>)
                   ELSE IF k = 4 THEN <<47, 32>> ELSE IF k = 5 THEN <<10>> ELSE IF k = 6 THEN <<34>> ELSE IF k = 7 THEN <<39>> ELSE IF k = 8 THEN Inside
                   ELSE IF k = 9 THEN <<92>> ELSE IF k = 10 THEN Codes("//") ELSE IF k = 11 THEN <<Pick(128..255)>> ELSE <<32, 97>>)
             [] kind = "line" ->
                  (IF k <= 2 THEN Codes("/* ") ELSE IF k = 3 THEN <<34>> ELSE IF k = 4 THEN <<39>> ELSE IF k = 5 THEN Inside ELSE IF k = 6 THEN Codes("*/")
                   ELSE IF k = 7 THEN <<92, 97>> ELSE IF k = 8 THEN <<9>> ELSE <<97>>)
             [] kind = "string" ->
                  (IF k = 1 THEN <<92, 34>> ELSE IF k = 2 THEN <<92, 92>> ELSE IF k = 3 THEN <<92, 110>> ELSE IF k = 4 THEN Codes("/*") ELSE IF k = 5 THEN Codes("//")
                   ELSE IF k = 6 THEN Codes("PIRE_REGEXP(") ELSE IF k = 7 THEN <<92, 10>> ELSE IF k = 8 THEN <<39>> ELSE IF k = 9 THEN Codes("*/") ELSE <<98, 32>>)
             [] kind = "blank" -> (IF k <= 6 THEN <<32>> ELSE IF k <= 8 THEN <<9>> ELSE IF k <= 10 THEN <<10>> ELSE <<13, 10>>))
       \o Several(kind, n - 1)
Text0 == <<Codes("int x = 1;"), <<10>>, Codes("a/b*c;"), Codes(" / * x"), Codes("f(x, PIRE_REGEXPS(1))"), Codes("PIRE_REGEXP;"), Codes("PIRE"), Codes("XPIRE_REGEXP(0)"),
           Codes("#define X(a) \\") \o <<10>> \o Codes(" foo(a)") \o <<10>>, Codes("PIRE_REGEXP_1("), Codes("return a[2];"), <<10, 10>>, Codes("{}"), <<195, 169>> >>
Chars0 == << <<34>>, <<92, 34>>, <<92, 39>>, <<92, 92>>, <<97>>, <<47>>, <<42>> >>
Comment(z) == Codes("/*") \o Several("comment", Pick(0..4)) \o OneOf(<< <<>>, <<42>>, <<42, 42>> >>) \o Codes("*/")
LineComment(z) == Codes("//") \o Several("line", Pick(0..4)) \o <<10>>
Piece(z) ==
  LET k == Pick(1..10)
  IN CASE k <= 4 -> OneOf(Text0)
       [] k <= 6 -> Comment(0)
       [] k = 7 -> LineComment(0)
       [] k <= 9 -> Quoted(Several("string", Pick(0..4)))
       [] k = 10 -> <<32, 39>> \o OneOf(Chars0) \o <<39>>
RECURSIVE Code(_)
Code(n) == IF n = 0 THEN <<>> ELSE Piece(0) \o Code(n - 1)

\* ---- the spelling of a string
Oct(c, n) == IF n = 1 THEN <<48 + c>> ELSE IF n = 2 THEN <<48 + (c \div 8), 48 + (c % 8)>> ELSE <<48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
Space(z) == OneOf(<< <<32>>, <<10>>, <<9>>, <<>>, Codes("/* x */"), <<13, 10>>, <<32>>, Comment(0), LineComment(0) >>)
Reopen(z) == <<34>> \o Space(0) \o <<34>>
RECURSIVE Spelled(_)
Spelled(p) ==
  IF p = <<>> THEN <<>>
  ELSE LET c == Head(p)
           k == Pick(1..16)
           next == IF Len(p) > 1 THEN p[2] ELSE 0
           hex == IF c < 16 THEN <<48>> \o HexOf(c, 1) ELSE HexOf(c, 2)
           one == IF k = 1 THEN <<92>> \o Oct(c, 3)
                  ELSE IF k = 2 THEN <<92>> \o Oct(c, IF c < 8 THEN 1 ELSE IF c < 64 THEN 2 ELSE 3) \o (IF IsOctal(next) \/ Chance(30) THEN Reopen(0) ELSE <<>>)
                  ELSE IF k = 3 THEN <<92, 120>> \o (IF Chance(20) THEN <<48, 48>> ELSE <<>>) \o hex \o (IF IsHex(next) \/ Chance(30) THEN Reopen(0) ELSE <<>>)
                  ELSE IF c = 10 THEN <<92, 110>> ELSE IF c = 9 THEN <<92, 116>> ELSE IF c = 34 \/ c = 92 \/ (c \in {39, 63} /\ Chance(50)) THEN <<92, c>>
                  ELSE IF c \in {7, 8, 11, 12, 13} /\ Chance(80) THEN <<92, CASE c = 7 -> 97 [] c = 8 -> 98 [] c = 11 -> 118 [] c = 12 -> 102 [] c = 13 -> 114>>
                  ELSE IF c < 32 \/ c = 127 THEN <<92>> \o Oct(c, 3)
                  ELSE <<c>>
       IN one \o (IF k = 4 THEN Reopen(0) ELSE IF k = 5 /\ Chance(30) THEN <<92, 10>> ELSE <<>>) \o Spelled(Tail(p))
String(p) == Space(0) \o <<34>> \o Spelled(p) \o <<34>> \o Space(0)

\* ---- expressions
Bytes8(o, p) == IF Has(o, "u") THEN FoldLeft(LAMBDA x, c : x \o (IF c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343) THEN Encode(c) ELSE <<97>>), <<>>, p)
                ELSE SelectSeq(p, LAMBDA c : c < 128)
FlagSets == << <<>>, <<>>, <<"i">>, <<"s">>, <<"s">>, <<"u">>, <<"a">>, <<"g">>, <<"r">>, <<"r", "s">>, <<"i", "s">>, <<"u", "i">>, <<"u", "s">>, <<"a", "s">>, <<"g", "r">>, <<"u", "r">>, <<"u", "i", "s">>, <<"i", "i">>, <<"a", "g">> >>
FlagBytes(o) == [i \in 1..Len(o) |-> FlagCode[o[i]]]
Shuffled(o) == IF Len(o) > 1 /\ Chance(50) THEN Tail(o) \o <<Head(o)>> ELSE o
Simple0 == << <<97>>, <<97, 98>>, <<40, 97, 124, 98, 41, 42>>, <<97, 92, 46, 98>>, <<91, 97, 45, 99, 93, 43>>, <<94, 97, 36>>, <<34>>, <<97, 10, 98>>, <<92, 110>>, <<92>> \o <<92>>, <<39>>, <<97, 13, 98>>, <<91, 7, 45, 13, 93, 63>>, <<92, 63, 97>> >>
RArg(z) == LET o == OneOf(FlagSets)
           IN <<Bytes8(o, IF Chance(40) THEN OneOf(Simple0) ELSE RPattern(IF Has(o, "g") \/ Has(o, "r") THEN 0 ELSE 1, o)), FlagBytes(Shuffled(o))>>
RECURSIVE Pairs(_)
Pairs(n) == IF n = 0 THEN <<>> ELSE RArg(0) \o Pairs(n - 1)
RECURSIVE Args(_)
Args(a) == IF a = <<>> THEN <<>> ELSE String(Head(a)) \o (IF Len(a) > 1 THEN <<44>> ELSE <<>>) \o Args(Tail(a))
Opening(z) == Codes("PIRE_REGEXP") \o (IF Chance(25) THEN Several("blank", Pick(1..2)) ELSE <<>>) \o <<40>>
Expr(a) == Opening(0) \o Args(a) \o <<41>>

\* one thing wrong
BadArgs(z) ==
  LET a == RArg(0)
      k == Pick(1..6)
  IN CASE k = 1 -> <<a[1]>>
       [] k = 2 -> a \o <<a[1]>>
       [] k = 3 -> <<a[1], a[2] \o <<OneOf(<<120, 73, 32, 48, 110>>)>> >>
       [] k = 4 -> <<a[1], a[2] \o <<115, 103>> >>
       [] k = 5 -> <<Spoil(Spoil(a[1])), a[2]>>
       [] k = 6 -> <<a[1] \o <<195>>, <<117>> >>
BadExpr(z) ==
  LET a == RArg(0)
      k == Pick(1..8)
  IN CASE k <= 4 -> Expr(BadArgs(0))
       [] k = 5 -> Opening(0) \o Codes("pattern, ") \o String(a[2]) \o <<41>>
       [] k = 6 -> Opening(0) \o String(a[1]) \o <<44>> \o String(a[2])                       \* no end
       [] k = 7 -> Opening(0) \o <<34>> \o Spelled(a[1]) \o <<92, OneOf(<<113, 56, 120, 32>>)>> \o <<34, 44, 34, 34, 41>>
       [] k = 8 -> Opening(0) \o Codes("/* ") \o Expr(a)                                         \* in a comment without an end

Src(z) ==
  LET k == Pick(1..10)
      c1 == Code(Pick(0..3))  c2 == Code(Pick(0..3))
      one == IF Chance(75) THEN Expr(RArg(0)) ELSE Expr(Pairs(Pick(2..3)))
  IN IF k <= 6 THEN c1 \o one \o c2
     ELSE IF k = 7 THEN c1 \o one \o <<59>> \o c2 \o Expr(RArg(0)) \o Code(1)
     ELSE IF k = 8 THEN c1 \o c2 \o Code(Pick(0..3))
     ELSE IF k = 9 THEN c1 \o BadExpr(0) \o c2
     ELSE IF Chance(80) THEN c1 \o Expr(RArg(0)) \o BadExpr(0) ELSE c1 \o Codes("/* a") \o Several("comment", 2)

Go == /\ phase = "go"
      /\ \E s \in {Src(0)} : \E x \in {InlineOf(s)} :
           /\ hist' = << <<"inline", OneOf(<<"s", "f">>), "s", s>> >>
                      \o (IF x[1] THEN [k \in 1..Len(x[3]) |-> <<"sdump", "s" \o ToString(k), IF x[5][k] THEN <<"u8">> ELSE <<>> >>] ELSE <<>>)
           /\ phase' = "done"
Next == Go
Spec == Init /\ [][Next]_<<hist, phase>>
Emit == phase = "done" => PrintT(CaseText(hist))
=============================================================================
