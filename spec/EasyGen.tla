------------------------------ MODULE EasyGen ------------------------------
(* The one-line interface: an expression object with options, and texts.     *)
EXTENDS GenBase
CONSTANTS Profile

VARIABLES hist, phase
Init == hist = <<>> /\ phase = "go"
Add(ops) == hist' = ops /\ phase' = "done"
Go == phase = "go"

OptSets == << <<>>, <<>>, <<"i">>, <<"a">>, <<"u">>, <<"i", "a">>, <<"i", "u">>, <<"a", "u">>, <<"i", "a", "u">> >>

\* patterns with anchors in many places
Anch(p) ==
  LET k == Pick(1..14)
  IN CASE k = 1 -> <<94>> \o p [] k = 2 -> p \o <<36>> [] k = 3 -> <<94>> \o p \o <<36>>
       [] k = 4 -> <<40, 94>> \o p \o <<41>> \o <<98>> [] k = 5 -> <<94>> \o p \o <<124, 98, 98>> [] k = 6 -> <<97, 97, 124>> \o p \o <<36>>
       [] k = 7 -> <<40, 94, 124, 97, 41>> \o p [] k = 8 -> <<94, 40>> \o p \o <<41, 63>> [] k = 9 -> <<40, 94, 97, 124, 94, 98, 41>> \o p
       [] OTHER -> p
Bytes(o, p) == IF Has(o, "u") THEN FoldLeft(LAMBDA x, c : x \o (IF c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343) THEN Encode(c) ELSE <<97>>), <<>>, p)
               ELSE [i \in 1..Len(p) |-> p[i]]
Ascii(p) == SelectSeq(p, LAMBDA c : c < 128)
\* texts made of pieces of the pattern and of noise
UniChars == << <<208, 182>>, <<208, 150>>, <<195, 169>>, <<195, 137>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<208>>, <<182>>, <<255>> >>
RECURSIVE UText(_, _)
UText(o, n) == IF n = 0 THEN <<>>
             ELSE (IF Has(o, "u") /\ Chance(30) THEN OneOf(UniChars) ELSE IF Has(o, "i") /\ Chance(30) THEN <<OneOf(CaseLits)>> ELSE Rep(Letter(<<>>), OneOf(<<1, 1, 2>>)))
                  \o UText(o, n - 1)
Piece(p) == LET q == SelectSeq(p, LAMBDA c : Plain(c) /\ c < 128)
            IN IF q = <<>> THEN <<>> ELSE LET i == Pick(1..Len(q)) IN LET j == Pick(i..Len(q)) IN SubSeq(q, i, j)
RTxt(o, p) == LET k == Pick(1..6)
              IN IF k = 1 THEN LongText(0) ELSE IF k <= 3 THEN Piece(p) \o UText(o, Pick(0..2)) \o (IF Chance(50) THEN Piece(p) ELSE <<>>)
                 ELSE UText(o, Pick(0..5))
Txts(o, p) == [i \in 1..14 |-> IF i = 1 THEN <<>> ELSE RTxt(o, p)]

One == /\ Go /\ Profile = "C18"
  /\ \E o \in {OneOf(OptSets)} : \E p \in {Anch(RPattern(IF Chance(30) THEN 2 ELSE 1, o))} :
     \E b \in {IF Has(o, "u") THEN Bytes(o, p) ELSE Ascii(p)} :
       Add(<< <<IF Chance(50) THEN "easy" ELSE "easyopt", "e", o, b>>, <<"easymatch", "e">> \o Txts(o, p) >>
           \o (IF o = <<>> /\ (\A i \in 1..Len(b) : b[i] # 0) THEN << <<"easyc", "f", b>>, <<"easymatch", "f">> \o Txts(o, p) >> ELSE <<>>))
\* patterns that are not well-formed, or not text in the encoding
Wrong == /\ Go /\ Profile = "C18"
  /\ \E o \in {OneOf(OptSets)} : \E p \in {Spoil(RPattern(1, o))} :
     \E b \in {IF Chance(50) THEN Bytes(o, p) ELSE [i \in 1..Len(p) |-> p[i] % 256]} :
       Add(<< <<IF Chance(50) THEN "easy" ELSE "easyopt", "e", o, b>>, <<"easy", "e", o, Ascii(RPattern(1, o))>>, <<"easymatch", "e">> \o Txts(o, p) >>)
\* patterns whose automata cannot be made deterministic
Large == << <<97, 46, 123, 50, 48, 125, 98>>, <<40, 97, 124, 98, 41, 42, 97, 91, 97, 98, 93, 123, 50, 48, 125, 99>>, <<97, 46, 123, 50, 49, 125, 36>>,
            <<94, 46, 42, 97, 46, 123, 50, 48, 125, 98, 98>> >>
RECURSIVE AB(_)
AB(n) == IF n = 0 THEN <<>> ELSE Append(AB(n - 1), OneOf(<<97, 98, 98>>))
Big == /\ Go /\ Profile = "big"
  /\ \E p \in {OneOf(Large)} :
       Add(<< <<"easy", "e", <<>>, p>>, <<"easymatch", "e">> \o [i \in 1..12 |-> AB(Pick(0..30)) \o OneOf(<< <<>>, <<98>>, <<98, 98>>, <<99>> >>)] >>)
\* expressions as values, some of them made of scanners (in which nothing is added around the pattern)
Objects == /\ Go /\ Profile = "C18"
  /\ \E o \in {OneOf(OptSets)} : \E p \in {Anch(RPattern(1, o))}, q \in {RPattern(1, <<>>)}, b \in {IF Chance(15) THEN OneOf(Large) ELSE <<>>}, t \in {OneOf(<<"S", "W">>)}, e \in {Chance(10)},
        k \in {Pick(1..6)} :
     /\ Parse(Elems(o), IF Has(o, "u") THEN p ELSE Ascii(p))[1]
     /\ LET m(x) == << <<"easymatch", x>> \o [i \in 1..6 |-> RTxt(o, IF Chance(50) THEN p ELSE q)] >>
        IN Add(<< <<"easy", "a", o, IF b # <<>> THEN b ELSE IF Has(o, "u") THEN Bytes(o, p) ELSE Ascii(p)>> >>
          \o (IF e THEN << <<"sempty", "s", t>> >> ELSE << <<"fparse", "f", <<>>, q>>, <<"scompile", "s", t, "f">> >>)
          \o << <<"easyscan", "b", "s">>, <<"sdel", "s">> >> \o m("b")
          \o (CASE k = 1 -> << <<"easycopy", "c", "a">>, <<"easydel", "a">> >> \o m("c")
                [] k = 2 -> << <<"easyassign", "b", "a">>, <<"easydel", "a">> >> \o m("b")
                [] k = 3 -> << <<"easyassign", "a", "b">>, <<"easydel", "b">> >> \o m("a")
                [] k = 4 -> << <<"easyswap", "a", "b">> >> \o m("a") \o m("b")
                [] k = 5 -> << <<"easycopy", "c", "b">>, <<"easyassign", "b", "a">>, <<"easyassign", "b", "b">> >> \o m("b") \o m("c")
                [] OTHER -> << <<"easycopy", "c", "a">>, <<"easyswap", "c", "b">>, <<"easydel", "c">> >> \o m("a") \o m("b")))
Next == One \/ Objects \/ One \/ One \/ One \/ Wrong \/ Big
Spec == Init /\ [][Next]_<<hist, phase>>
Emit == phase = "done" => PrintT(CaseText(hist))
=============================================================================
