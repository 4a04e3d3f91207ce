------------------------------ MODULE StoreGen ------------------------------
(* Scanners stored one after another and restored, and data that must be     *)
(* refused: truncated, of another kind, with a damaged header, misaligned.   *)
EXTENDS KindGen
CONSTANTS Profile

VARIABLES hist, phase
Add(ops) == hist' = ops /\ phase' = "done"
Init == hist = <<>> /\ phase = "go"

Kinds == <<"S", "N", "SM", "NM", "I", "W", "S", "W", "H", "HN", "HM", "HNM", "C", "A", "G", "C", "K", "KS">>
RECURSIVE Store(_, _)
Store(ts, i) == IF i > Len(ts) THEN <<>>
  ELSE LET r == ToString(i)
       IN MakeAny(r, ts[i]) \o << <<"ssave", "B", r>> >> \o (IF ts[i] \in CountKinds THEN << <<"scountall", r, CountLetters, 3>> >> ELSE IF ts[i] \in {"K", "KS"} THEN RunsAny(r, ts[i], 3) ELSE <<>>)
          \o Store(ts, i + 1)
RECURSIVE Restore(_, _)
Restore(ts, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE LET r == "r" \o ToString(i)
       IN (IF Chance(50) THEN << <<"sempty", r, ts[i]>> >> ELSE MakeAny(r, ts[i]))
          \o << <<IF CanMap(ts[i]) /\ Chance(50) THEN "smmap" ELSE "sload", r, "B">> >> \o Restore(ts, i + 1)
RECURSIVE Looks(_, _)
Looks(ts, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE LET r == "r" \o ToString(i)
       IN LookAt(r, ts[i]) \o << <<"ssave", "C", r>> >> \o Looks(ts, i + 1)

Sequence ==    \* several scanners in one buffer, restored into the same or the other memory form
  /\ phase = "go"
  /\ \E n \in {Pick(1..4)} : \E ts \in {[i \in 1..n |-> OneOf(Kinds)]} : \E us \in {[i \in 1..n |-> IF Chance(25) THEN Sibling(ts[i]) ELSE ts[i]]} :
       Add(Store(ts, 1) \o << <<"bsize", "B">> >> \o Restore(us, 1) \o Looks(us, 1) \o << <<"bsize", "C">> >>
           \* ... and what was saved again is restored once more
           \o << <<"sempty", "z", us[1]>>, <<"sload", "z", "C">> >> \o LookAt("z", us[1])
           \o (IF CanMap(us[1]) THEN << <<"brewind", "C">>, <<"smmap", "z", "C">> >> \o LookAt("z", us[1]) ELSE <<>>)
           \* a read past the end
           \o (IF Chance(30) THEN << <<"brewind", "B">> >> \o Restore(us, 1) \o << <<"sload", "z", "B">> >> ELSE <<>>))
Headers ==     \* one byte of the header changed: magic, version (6 is accepted as well as 7), word sizes, kind, header size
  /\ phase = "go"
  /\ \E t \in {OneOf(Kinds)} : \E off \in {IF Chance(70) THEN 4 * Pick(0..5) ELSE Pick(0..23)}, m \in {IF Chance(50) THEN OneOf(<<2, 4, 8, 16, 32, 64, 128>>) ELSE Pick(1..255)}, c \in {Pick(1..3)} :
       /\ ~(off = 4 /\ m = 1) /\ ~(t \in {"C", "A", "K", "G"} /\ off = 16 /\ m = 1)     \* nor the other kind of counting scanners
       /\ Add(MakeAny("s", t) \o << <<"ssave", "B", "s">>, <<"bxor", "B", off, m>> >> \o MakeAny("r", t)
              \o << <<IF CanMap(t) /\ c > 1 THEN "smmap" ELSE "sload", "r", "B">>, <<"brewind", "B">>, <<"sload", "s", "B">> >>)
Old ==         \* data of the previous version of the library
  /\ phase = "go"
  /\ \E t \in {OneOf(<<"S", "N", "SM", "I", "W", "H", "C", "C", "A", "A", "K", "K", "KS">>)} :
       Add(MakeAny("s", t) \o LookAt("s", t) \o << <<"ssave", "B", "s">>, <<"bold", "B">> >> \o MakeAny("r", t) \o << <<"sload", "r", "B">> >> \o LookAt("r", t)
           \o (IF CanMap(t) THEN << <<"brewind", "B">>, <<"sempty", "r", t>>, <<"smmap", "r", "B">> >> \o LookAt("r", t) \o << <<"ssave", "D", "r">>, <<"sload", "s", "D">> >> \o LookAt("s", t) ELSE <<>>)
           \o (IF t = "A" THEN << <<"brewind", "B">>, <<"sempty", "g", "G">>, <<"sload", "g", "B">> >> \o LookAt("g", "G") ELSE <<>>)
           \o << <<"trunctest", "s", t, "B", Pick(1..40)>> >>)
Truncated ==
  /\ phase = "go"
  /\ \E t \in {OneOf(Kinds)} : Add(MakeAny("s", t) \o << <<"ssave", "B", "s">>, <<"trunctest", "s", t, "B", Pick(1..40)>> >> \o LookAt("s", t))
Foreign ==     \* the data of one kind given to another; arbitrary bytes
  /\ phase = "go"
  /\ \E t \in {OneOf(Kinds)}, u \in {OneOf(Kinds)} :
       Add(MakeAny("s", t) \o << <<"ssave", "B", "s">> >> \o MakeAny("r", u)
           \o << <<IF CanMap(u) /\ Chance(50) THEN "smmap" ELSE "sload", "r", "B">> >>
           \o MakeAny("q", u) \o << <<"bwrite", "D", [i \in 1..Pick(0..60) |-> Pick(0..255)]>>, <<IF CanMap(u) /\ Chance(50) THEN "smmap" ELSE "sload", "q", "D">> >>)
Misaligned ==
  /\ phase = "go"
  /\ \E t \in {OneOf(<<"S", "SM", "I", "W", "H", "HM", "C", "A", "G", "K", "KS">>)} :
       Add(MakeAny("s", t) \o << <<"ssave", "B", "s">> >> \o MakeAny("r", t) \o << <<"smmapmis", "r", "B", Pick(1..7)>>, <<"smmap", "r", "B">> >> \o LookAt("r", t))
\* long runs over mapped scanners, laid out in every way
Mapped ==
  /\ phase = "go"
  /\ \E t \in {OneOf(<<"S", "SM", "I", "W", "H", "HM">>)}, n \in {Pick(1..3)} :
       Add(MakeAny("s", t) \o << <<"sempty", "e", OneOf(<<"S", "I", "W">>)>>, <<"ssave", "D", "e">> >> \o [i \in 1..n |-> <<"ssave", "D", "s">>]
           \o << <<"sempty", "r", t>>, <<"sload", "e", "D">> >> \o [i \in 1..n |-> <<"smmap", "r", "D">>]
           \o << <<"sdump", "r", <<>> >> >> \o [i \in 1..6 |-> <<"srun", "r">> \o (IF Chance(50) THEN << <<"B">> >> ELSE <<>>) \o << <<"r", Pick(0..15), LongText(0)>>, <<"g", 0, LongText(0)>>, <<"E">> >>])

Next == Sequence \/ Sequence \/ Sequence \/ Sequence \/ Headers \/ Headers \/ Truncated \/ Foreign \/ Misaligned \/ Old \/ Mapped
Spec == Init /\ [][Next]_<<hist, phase>>
Emit == phase = "done" => PrintT(CaseText(hist))
=============================================================================
