------------------------------- MODULE PatExh -------------------------------
(* Systematic families of patterns: all strings of up to Depth tokens over a *)
(* token alphabet, and all members of families indexed by characters or      *)
(* counts.  Every state is one case.                                         *)
EXTENDS GenBase
CONSTANTS Profile, Depth

VARIABLES opt, toks, n, kind

Tokens ==
  CASE Profile = "C01" -> { <<97>>, <<98>>, <<46>>, <<91, 94, 97, 93>>, <<40>>, <<41>>, <<124>>, <<42>>, <<63>>,
                            <<123, 50, 125>>, <<123, 48, 44, 49, 125>>, <<94>>, <<36>>, <<38>>, <<126>> }
    [] Profile = "C12" -> { <<97>>, <<40>>, <<41>>, <<124>>, <<42>>, <<123>>, <<125>>, <<91>>, <<93>>, <<94>>, <<45>>, <<92>>,
                            <<50>>, <<44>>, <<100>>, <<68>>, <<120>>, <<38>>, <<126>>, <<36>>, <<49>>, <<43>> }
    [] Profile = "C12s" -> { <<97>>, <<93>>, <<94>>, <<45>>, <<92>>, <<98>>, <<91>>, <<68>>, <<100>>, <<120>>, <<54, 49>> }
    [] Profile = "C12c" -> { <<49>>, <<50>>, <<44>>, <<125>>, <<97>>, <<48>>, <<45>>, <<1633>> }
    [] Profile = "C13" -> { <<97>>, <<98>>, <<42>>, <<124>>, <<36>>, <<94>>, <<98, 97>> }
    [] OTHER -> {}
Before == CASE Profile = "C12s" -> <<91>> [] Profile = "C12c" -> <<97, 123>> [] OTHER -> <<>>
After  == CASE Profile = "C12s" -> <<93>> [] Profile = "C12c" -> <<>> [] OTHER -> <<>>
TokOpts ==
  CASE Profile = "C01" -> { <<"a">> }
    [] Profile = "C12" -> { <<"a">> }
    [] Profile = "C12s" -> { <<>> }
    [] Profile = "C12c" -> { <<"u">> }
    [] Profile = "C13" -> { <<>> }
    [] OTHER -> {}

\* ---- families
Meta(c) == c \in Escapable
Esc1(c) == IF Meta(c) THEN <<92, c>> ELSE <<c>>
Hex2(c) == <<92, 120, HexDigit[(c \div 16) + 1], HexDigit[(c % 16) + 1]>>
RECURSIVE HexN(_, _)
HexN(c, k) == IF k = 0 THEN <<>> ELSE Append(HexN(c \div 16, k - 1), HexDigit[(c % 16) + 1])
HexB(c) == <<92, 120, 123>> \o HexN(c, HexLen(c)) \o <<125>>
Num(k) == <<48 + k>>
CountTails == { <<123>> \o Num(i) \o <<125>> : i \in 0..5 } \cup { <<123>> \o Num(i) \o <<44, 125>> : i \in 0..3 }
          \cup { <<123>> \o Num(i) \o <<44>> \o Num(j) \o <<125>> : i \in 0..4, j \in 0..5 }
          \cup { <<42>>, <<43>>, <<63>> }
CountAtoms == { <<97>>, <<40, 97, 98, 41>>, <<40, 97, 124, 98, 98, 41>>, <<46>>, <<91, 94, 97, 93>>, <<40, 97, 42, 98, 41>>, <<40, 97, 63, 41>>, <<40, 41>>,
                <<94>>, <<40, 97, 36, 124, 98, 41>> }
CountPatterns == {a \o c : a \in CountAtoms, c \in CountTails}
                 \cup {<<98>> \o a \o c \o <<97>> : a \in CountAtoms, c \in CountTails}
                 \cup {<<40>> \o a \o c \o <<124, 98, 41, 97>> : a \in CountAtoms, c \in CountTails}
                 \cup {<<40>> \o a \o c \o <<41, 42, 98>> : a \in CountAtoms, c \in CountTails}
\* larger counts, around the sizes of the integers they might be kept in
RECURSIVE Dec(_)
Dec(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Dec(k \div 10), 48 + (k % 10))
BigCounts == {9, 10, 16, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300}
BigCountPatterns == {<<97, 123>> \o Dec(k) \o <<125>> : k \in BigCounts} \cup {<<97, 98, 63, 123>> \o Dec(k) \o <<44, 125>> : k \in BigCounts}
                    \cup {<<46, 123>> \o Dec(k) \o <<44, 125, 97>> : k \in BigCounts \ {255, 256, 257, 300}} \cup {<<97, 123, 48, 44>> \o Dec(k) \o <<125, 98>> : k \in BigCounts}
                    \cup {<<97, 123>> \o Dec(k) \o <<44>> \o Dec(k + 3) \o <<125>> : k \in BigCounts} \cup {<<97, 123>> \o Dec(k) \o <<44>> \o Dec(k - 1) \o <<125>> : k \in BigCounts}
                    \cup {<<40, 97, 124, 98, 99, 41, 123>> \o Dec(k) \o <<125>> : k \in BigCounts}
Classes == {<<92, c>> : c \in ClassLetters} \cup {<<92, c - 32>> : c \in ClassLetters}
ClassPatterns == Classes \cup {<<97>> \o c \o <<42, 98>> : c \in Classes} \cup {<<91>> \o c \o <<93>> : c \in Classes}
                 \cup {<<91, 94>> \o c \o <<93>> : c \in Classes} \cup {<<91, 97, 45, 99, 48>> \o c \o <<93>> : c \in Classes}
                 \cup {<<91>> \o c \o d \o <<93>> : c \in Classes, d \in Classes} \cup {c \o d : c \in Classes, d \in Classes}
Bounds == {0, 1, 127, 128, 129, 191, 192, 255, 256, 2047, 2048, 2049, 4095, 4096, 8364, 53247, 57344, 61440, 63743, 64256, 65534, 65535, 65536, 65537,
           131071, 131072, 262143, 262144, 1048575, 1048576, 1114110, 1114111}
Near == {<<120, 140>>, <<0, 5>>, <<2040, 2060>>, <<191, 193>>, <<255, 257>>, <<4090, 4100>>, <<65530, 65545>>, <<131070, 131075>>, <<262140, 262150>>,
         <<1114100, 1114111>>, <<1048570, 1048580>>, <<126, 200>>, <<1000, 1100>>, <<8190, 8200>>, <<12284, 12292>>}
UniPatterns == {HexB(c) : c \in Bounds} \cup {<<91, 94>> \o HexB(c) \o <<93>> : c \in Bounds}
               \cup {<<97>> \o HexB(c) \o <<42, 98>> : c \in Bounds} \cup {<<91>> \o HexB(c) \o <<97, 93, 43>> : c \in Bounds}
               \cup {<<46>> \o HexB(c) : c \in Bounds} \cup {HexB(c) \o <<46>> : c \in Bounds}
               \cup {<<91>> \o HexB(r[1]) \o <<45>> \o HexB(r[2]) \o <<93>> : r \in Near}
               \cup {<<91, 94>> \o HexB(r[1]) \o <<45>> \o HexB(r[2]) \o <<93>> : r \in Near}
               \cup {<<91>> \o HexB(c) \o HexB(d) \o <<93>> : c \in Bounds, d \in {65, 128, 233, 8364, 65535, 128512}}
               \cup {<<40>> \o HexB(c) \o <<124>> \o HexB(d) \o <<41>> : c \in Bounds, d \in {65, 2048, 65536}}
               \cup {<<c>> : c \in Bounds \ {0}}
Families ==
  CASE Profile = "F01" -> {<<o, Esc1(c)>> : o \in {<<>>, <<"u">>}, c \in 1..127} \cup {<< <<>>, Hex2(c) >> : c \in 0..255} \cup {<< <<"u">>, Hex2(c) >> : c \in 0..255}
                          \cup {<< <<>>, <<91>> \o (IF c \in {94, 45, 91, 92, 93} THEN <<92, c>> ELSE <<c>>) \o <<93>> >> : c \in 1..127}
                          \cup {<< <<>>, <<91, 94>> \o Hex2(c) \o <<93>> >> : c \in 0..255}
                          \cup {<< <<>>, <<91>> \o Hex2(c) \o <<45>> \o Hex2(c + k) \o <<93>> >> : c \in 0..200, k \in {0, 1, 9, 50}}
                          \cup {<< <<>>, p>> : p \in CountPatterns}
                          \cup {<<o, p>> : o \in {<<>>, <<"u">>}, p \in ClassPatterns}
    [] Profile = "big" -> {<< <<>>, p>> : p \in BigCountPatterns}
    [] Profile = "F10" -> {<< <<"u">>, p >> : p \in UniPatterns}
    [] Profile = "F11" -> {<< <<"i", "u">>, <<c>> >> : c \in {x \in CaseDomain : ~Meta(x)}} \cup {<< <<"i">>, Esc1(c) >> : c \in 1..127}
                          \cup {<< <<"i", "u">>, Esc1(c) >> : c \in 128..900}
                          \cup {<< <<"g", "u">>, Esc1(c) >> : c \in 1..1200} \cup {<< <<"g", "i", "u">>, Esc1(c) >> : c \in (33..126) \cup (1025..1105)}
                          \cup {<< <<"g">>, Esc1(c) >> : c \in 1..127}
                          \cup {<<o, p>> : o \in {<<"i">>, <<"i", "u">>, <<"g", "u">>, <<"i", "g", "u">>}, p \in ClassPatterns}
    [] OTHER -> {}

Init ==
  \/ kind = "tok" /\ opt \in TokOpts /\ toks = <<>> /\ n = 0
  \/ kind = "fam" /\ n = 0 /\ \E f \in Families : opt = f[1] /\ toks = f[2]
Next == kind = "tok" /\ n < Depth /\ n' = n + 1 /\ \E t \in Tokens : toks' = toks \o t /\ UNCHANGED <<opt, kind>>
Spec == Init /\ [][Next]_<<opt, toks, n, kind>>

Case1 ==
  LET p == IF kind = "tok" THEN Before \o toks \o After ELSE toks
      fl == IF Has(opt, "u") THEN <<"u8">> ELSE <<>>
      r == Parse(Elems(opt), p)
  IN IF Profile = "C13"
     THEN << <<"fparse", "a", opt, p>>, <<"scompile", "s", "S", "a", 1>>, <<"sdump", "s", <<>> >>, <<"scompile", "s", "S", "a", 2>>, <<"sdump", "s", <<>> >>,
             <<"f", "approx", "a", 1>>, <<"fdump", "a", <<>> >> >>
     ELSE IF r[1] THEN << <<"fparse", "a", opt, p>>, <<"scompile", "s", "S", "a">>, <<"sdump", "s", fl>> >>
     ELSE << <<"fparse", "a", opt, p>> >>
\* malformed patterns are only of interest to C12
Emit == (Profile \in {"C12", "C12s", "C12c"} \/ Parse(Elems(opt), toks)[1]) => PrintT(CaseText(Case1))
=============================================================================
