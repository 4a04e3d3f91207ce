------------------------------- MODULE LifeGen -------------------------------
(* Lifecycles of scanner objects: histories of copying, assigning, swapping, *)
(* moving, loading over and destroying a few scanners of one kind.           *)
EXTENDS KindGen
CONSTANTS Profile

VARIABLES hist, left, t, live, moved
vars == <<hist, left, t, live, moved>>
Regs == {"p", "q", "r", "u"}
\* histories start with two or three scanners
Fresh(x) == IF Chance(12) THEN << <<"sempty", x, t>> >> ELSE MakeAny(x, t)
Init ==
  /\ t \in AllKinds /\ left \in 4..14
  /\ live = {} /\ moved = {} /\ hist = <<>>

Do(ops, lv, mv) == /\ left' = left - 1 /\ hist' = hist \o ops /\ live' = lv /\ moved' = mv /\ UNCHANGED <<t>>
On(x) == x \in live
Make == left > 0 /\ \E x \in {Pick(Regs)} : Do(Fresh(x), live \cup {x}, moved \ {x})
Src(z) == Pick(live)
Copy == left > 0 /\ live # {} /\ \E x \in {Pick(Regs)}, y \in {Src(0)} : Do(<< <<"scopy", x, y>> >>, live \cup {x}, moved \ {x})
Assign == left > 0 /\ t # "KS" /\ live # {} /\ \E x \in {Pick(live \cup moved)}, y \in {Src(0)} : Do(<< <<"sassign", x, y>> >>, live \cup {x}, moved \ {x})
SelfAssign == left > 0 /\ t # "KS" /\ live # {} /\ \E x \in {Src(0)} : Do(<< <<"sassign", x, x>> >>, live, moved)
Swap == left > 0 /\ live # {} /\ \E x \in {Pick(live)}, y \in {Pick(live)}, o \in {IF t = "KS" THEN "sswap" ELSE Pick({"sswap", "sstdswap"})} : Do(<< <<o, x, y>> >>, live, moved)
Move == left > 0 /\ live # {} /\ \E x \in {Pick(Regs)}, y \in {Src(0)} :
          x # y /\ Do(<< <<"smove", x, y>> >>, (live \cup {x}) \ {y}, (moved \cup {y}) \ {x})
MoveAssign == left > 0 /\ t # "KS" /\ live # {} /\ \E x \in {Pick(live \cup moved)}, y \in {Src(0)} :
          x # y /\ Do(<< <<"smoveassign", x, y>> >>, (live \cup {x}) \ {y}, (moved \cup {y}) \ {x})
Delete == left > 0 /\ (live \cup moved) # {} /\ \E x \in {Pick(live \cup moved)} : Do(<< <<"sdel", x>> >>, live \ {x}, moved \ {x})
SaveLoad == left > 0 /\ live # {} /\ \E x \in {Pick(live \cup moved)}, y \in {Src(0)} :
          Do(<< <<"bclear", "B">>, <<"ssave", "B", y>>, <<IF CanMap(t) /\ Chance(60) THEN "smmap" ELSE "sload", x, "B">> >>, live \cup {x}, moved \ {x})
LoadTwice == left > 0 /\ live # {} /\ \E x \in {Pick(live \cup moved)}, y \in {Src(0)}, z \in {Pick(live)} :
          Do(<< <<"bclear", "C">>, <<"ssave", "C", y>>, <<"ssave", "C", z>>, <<IF CanMap(t) /\ Chance(60) THEN "smmap" ELSE "sload", x, "C">>,
                <<IF CanMap(t) /\ Chance(60) THEN "smmap" ELSE "sload", x, "C">> >>, live \cup {x}, moved \ {x})
FailLoad == left > 0 /\ live # {} /\ \E x \in {Pick(live \cup moved)}, y \in {Src(0)} :   \* the target may hold anything afterwards
          Do(<< <<"bclear", "B">>, <<"ssave", "B", y>>, <<"bxor", "B", Pick(0..3), Pick(1..255)>>, <<IF CanMap(t) /\ Chance(60) THEN "smmap" ELSE "sload", x, "B">> >>,
             live \ {x}, moved \cup {x})
Glue == left > 0 /\ t \notin NoGlue /\ live # {} /\ Len(hist) < 16 /\ \E x \in {Pick(Regs)}, y \in {Src(0)}, z \in {Pick(live)} :
          Do(<< <<"sglue", x, y, z>> >>, live \cup {x}, moved \ {x})
Look == left > 0 /\ live # {} /\ \E x \in {Src(0)} : Do(LookAt(x, t), live, moved)
\* through the other memory form
Form == left > 0 /\ t \in {"S", "N", "SM", "NM"} /\ live # {} /\ \E x \in {Pick(Regs)}, y \in {Src(0)} :
          Do(<< <<"sconv", "o", Sibling(t), y>>, <<"sconv", x, t, "o">>, <<"sdel", "o">> >>, live \cup {x}, moved \ {x})

\* finally every object is looked at
RECURSIVE LookAll(_)
LookAll(X) == IF X = {} THEN <<>>
              ELSE LET x == CHOOSE y \in X : TRUE IN LookAt(x, t) \o LookAll(X \ {x})
Finish == left = 0 /\ left' = -1 /\ hist' = hist \o LookAll(live) /\ UNCHANGED <<t, live, moved>>

Next == Make \/ Copy \/ Copy \/ Assign \/ Assign \/ SelfAssign \/ Swap \/ Swap \/ Move \/ MoveAssign \/ MoveAssign \/ Delete
        \/ SaveLoad \/ LoadTwice \/ FailLoad \/ Glue \/ Form \/ Look \/ Finish
Spec == Init /\ [][Next]_vars
Emit == left = -1 => PrintT(CaseText(hist))
=============================================================================
