------------------------------- MODULE CapGen -------------------------------
(* Capturing scanners: texts in pieces, scanners copied and stored in        *)
(* between.                                                                  *)
EXTENDS CapPat
CONSTANTS Profile

VARIABLES hist, phase
Init == hist = <<>> /\ phase = "go"
Add(ops) == hist' = ops /\ phase' = "done"

Keep(t) ==
  LET k == Pick(1..12)
  IN IF k = 1 THEN << <<"scopy", "c", "s">>, <<"sdel", "s">>, <<"scopy", "s", "c">> >>
     ELSE IF k = 2 THEN << <<"ssave", "B", "s">>, <<"sload", "s", "B">> >>
     ELSE IF k = 3 THEN << <<"ssave", "B", "s">>, <<"smmap", "s", "B">> >>
     ELSE IF k = 4 THEN << <<"sempty", "c", t>>, <<"sswap", "c", "s">>, <<"sswap", "c", "s">> >>
     ELSE IF k = 5 THEN << <<"smove", "c", "s">>, <<"smove", "s", "c">> >>
     ELSE IF k = 6 /\ t = "K" THEN << <<"sempty", "c", t>>, <<"sassign", "c", "s">>, <<"sempty", "s", t>>, <<"smoveassign", "s", "c">> >>
     ELSE IF k = 7 THEN << <<"ssave", "B", "s">>, <<"ssave", "B", "s">>, <<"sempty", "s", t>>, <<"smmap", "s", "B">>, <<"sload", "s", "B">> >>
     ELSE <<>>
C15 == /\ phase = "go"
  /\ \E t \in {OneOf(<<"K", "KS", "KS", "KS">>)} : \E u \in {t = "KS" /\ Chance(20)} : \E x \in {IF t = "K" THEN FastTree(0) ELSE SlowTree(u)} :
     Add(<< <<"scap", "s", t, x, IF u THEN <<"u">> ELSE <<>>, CapText(x), CapIndex(x)>> >> \o CRuns(u, t, 8) \o Keep(t) \o CRuns(u, t, 4))
Next == C15
Spec == Init /\ [][Next]_<<hist, phase>>
Emit == phase = "done" => PrintT(CaseText(hist))
=============================================================================
