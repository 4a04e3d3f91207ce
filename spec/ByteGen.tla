------------------------------- MODULE ByteGen -------------------------------
(* Patterns as bytes: all sequences over the bytes at which the rules of      *)
(* UTF-8 change, and the characters around all boundaries.                    *)
EXTENDS GenBase
CONSTANTS Profile, Depth

VARIABLES case

Edges == <<0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 247, 248, 252, 254, 255>>
Lead == <<65, 128, 159, 160, 191, 194, 237, 244>>
Starts == {<<>>} \cup {<<Edges[i]>> : i \in DOMAIN Edges} \cup {<<Edges[i], Edges[j]>> : i \in DOMAIN Edges, j \in DOMAIN Edges}
Turns == {0, 127, 128, 2047, 2048, 4095, 4096, 55295, 57344, 65535, 65536, 131071, 131072, 262143, 262144, 524287, 524288, 1048575, 1048576}
Cases == {<< <<"decodeall", e, p, IF Len(p) = 2 THEN Lead ELSE Edges, IF Len(p) = 2 THEN 2 ELSE 1>> >> : e \in {"u", "l"}, p \in Starts}
         \cup {<< <<"codes", "u", IF c < 40 THEN 0 ELSE c - 40, c + 40, 1>>, <<"codes", "l", IF c < 40 THEN 0 ELSE c - 40, c + 40, 1>> >> : c \in Turns}
         \cup {<< <<"codes", "u", 1114111 - 100, 1114111, 1>> >>}
         \cup {<< <<"codes", "u", k * 16384 + k, (k + 1) * 16384 - 1, IF Depth > 1 THEN 1 ELSE 37>> >> : k \in 0..67}

Init == case \in Cases
Next == FALSE /\ UNCHANGED case
Spec == Init /\ [][Next]_case
Emit == PrintT(CaseText(case))
=============================================================================
