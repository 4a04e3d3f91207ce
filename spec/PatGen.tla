------------------------------- MODULE PatGen -------------------------------
(* Single patterns and what is to be observed of them.                       *)
EXTENDS GenBase
CONSTANTS Profile

VARIABLES hist, phase
OptsOf ==
  CASE Profile = "C01" -> << <<>>, <<>>, <<"a">>, <<"a">>, <<"i">>, <<"u">>, <<"a", "u">> >>
    [] Profile = "C10" -> << <<"u">> >>
    [] Profile = "C11" -> << <<"i">>, <<"i", "u">>, <<"i", "u">>, <<"g">>, <<"g", "u">>, <<"i", "g", "u">>, <<"i", "a">> >>
    [] Profile = "C12" -> << <<>>, <<"a">>, <<"u">>, <<"i">>, <<"a", "u", "i">> >>
    [] OTHER -> << <<>> >>

Init == hist = <<>> /\ phase = "go"
Add(ops) == hist' = hist \o ops /\ phase' = "done"

OnePattern ==
  /\ phase = "go" /\ Profile \notin {"C12", "C13"}
  /\ \E o \in {OneOf(OptsOf)} : \E p \in {RPattern(2, o)} :
       LET fl == IF Has(o, "u") THEN <<"u8">> ELSE <<>>
       IN Add(<< <<"fparse", "a", o, p>>, <<"fdump", "a", fl>>, <<"scompile", "s", "S", "a">>, <<"sdump", "s", fl>> >>
              \o (IF Chance(20) THEN << <<"scompile", "i", "I", "a">>, <<"sdump", "i", fl>> >> ELSE <<>>))
\* patterns given as bytes, some of them damaged
Rare == <<0, 65, 127, 128, 159, 160, 191, 192, 194, 223, 224, 237, 239, 240, 244, 245, 248, 255>>
Damage(w) == IF w = <<>> THEN w
             ELSE LET i == Pick(1..Len(w)) k == Pick(1..4)
                  IN CASE k = 1 -> SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
                       [] k = 2 -> SubSeq(w, 1, i)
                       [] k = 3 -> [w EXCEPT ![i] = OneOf(Rare)]
                       [] OTHER -> SubSeq(w, 1, i) \o <<OneOf(Rare)>> \o SubSeq(w, i + 1, Len(w))
BytePattern ==
  /\ phase = "go" /\ Profile = "C10"
  /\ \E o \in {OneOf(<< <<"u">>, <<"u">>, <<"u", "i">>, <<"u", "a">>, <<>> >>)} : \E p \in {RPattern(2, <<"u">>)} :
     \E w \in {FoldLeft(LAMBDA a, c : a \o Encode(c), <<>>, p)} : \E b \in {IF Chance(35) THEN TLCEval(Damage(w)) ELSE w} :
       (\A i \in 1..(Len(b) - 1) : ~(b[i] = 237 /\ b[i + 1] >= 160 /\ b[i + 1] <= 191)) /\
       Add(<< <<"fparseb", "a", o, b>>, <<"fdump", "a", IF Has(o, "u") THEN <<"u8">> ELSE <<>> >> >>)
Spoilt ==      \* a sequence of possibly malformed patterns given to one lexer and to fresh ones
  /\ phase = "go" /\ Profile = "C12"
  /\ \E o \in {OneOf(OptsOf)} :
     \E p \in {Spoil(RPattern(2, o))}, q \in {RPattern(1, o)}, r \in {Spoil(Spoil(RPattern(1, o)))} :
       Add(<< <<"lexnew", "l", o>>, <<"lexparse", "l", "a", p>>, <<"lexparse", "l", "b", q>>, <<"lexparse", "l", "c", r>>,
              <<"lexparse", "l", "d", q>>, <<"fparse", "e", o, p>>,
              <<"fdump", "a", IF Has(o, "u") THEN <<"u8">> ELSE <<>> >>,
              <<"fdump", "d", IF Has(o, "u") THEN <<"u8">> ELSE <<>> >> >>)
Kinds1 == <<"S", "S", "N", "I", "SM">>
\* every letter of a wide class costs the real automaton a state
Wide(p) == Cardinality({i \in 1..Len(p) : p[i] \in {46, 91, 92}})
Approximate == \* several distances from one pattern, whose automaton must stay what it was
  /\ phase = "go" /\ Profile = "C13"
  /\ \E p \in {RPattern(1, <<>>)} : \E k \in {IF Wide(p) > 0 THEN 1 ELSE IF Len(p) <= 3 THEN Pick(0..3) ELSE IF Len(p) <= 6 THEN Pick(0..2) ELSE Pick(0..1)} :
       /\ Len(p) <= 9 /\ Wide(p) <= 1 /\ \A i \in 1..Len(p) : p[i] # 123
       /\ Add(<< <<"fparse", "a", <<>>, p>> >>
              \o (IF Chance(20) THEN << <<"f", "det", "a">> >> ELSE IF Chance(20) THEN << <<"f", "canon", "a">> >> ELSE IF Chance(20) THEN << <<"f", "sparse", "a">> >> ELSE <<>>)
              \o << <<"scompilein", "s", OneOf(Kinds1), "a", k>>, <<"sdump", "s", <<>> >>,
                    <<"scompile", "t", OneOf(Kinds1), "a", IF k > 0 THEN Pick(0..k) ELSE 0>>, <<"sdump", "t", <<>> >>, <<"fdump", "a", <<>> >>,
                    <<"f", "approx", "a", k>>, <<"fdump", "a", <<>> >> >>)
Next == OnePattern \/ BytePattern \/ Spoilt \/ Approximate
Spec == Init /\ [][Next]_<<hist, phase>>
Emit == phase = "done" => PrintT(CaseText(hist))
=============================================================================
