------------------------------- MODULE Chain -------------------------------
(* Counting scanners.  A chain of matches is m1 s1 m2 s2 ... mn standing     *)
(* without gaps anywhere in the text, every m a text of the expression re,   *)
(* every s one of the separator sep; the advanced counting scanners report   *)
(* the length of the longest chain.  (The simple one counts the pairs s m,   *)
(* no s having a text of re in it.)  They follow one reading of the text, so *)
(* they can miss a chain when it is not decided by the text read so far      *)
(* whether a match, or a separator, ends here or is continued; but they      *)
(* never report more than there is.                                          *)
EXTENDS HalfFinal

(* Threads <<"m" or "s", what remains of the expression, matches so far>>:   *)
(* the chains under way; of those with the same remainder the longest.       *)
Longer(T) == {x \in T : ~\E y \in T : y[1] = x[1] /\ y[2] = x[2] /\ y[3] > x[3]}
Spawned(cls, re, sep) ==     \* a chain may start anywhere
  IF cls = "C" THEN {<<"s", sep, 0>>} \cup (IF sep[2] THEN {<<"m", re, 0>>} ELSE {}) ELSE {<<"m", re, 0>>}
ChainInit == [th |-> {}, best |-> 0]
ChainStep(a, x, cls, re, sep) ==
  LET mv == {<<t[1], D(a, t[2]), t[3]>> : t \in x.th \cup Spawned(cls, re, sep)}
      n == {t[3] + 1 : t \in {t \in mv : t[1] = "m" /\ t[2][2]}}
      m == {t[3] : t \in {t \in mv : t[1] = "s" /\ t[2][2]}}
  IN [th |-> TLCEval(Longer({t \in mv : t[2] # None} \cup {<<"s", sep, k>> : k \in n}
                            \cup {<<"m", re, k>> : k \in m \cup (IF sep[2] THEN n ELSE {})})),
      best |-> CHOOSE k \in n \cup {x.best} : \A j \in n \cup {x.best} : j <= k]

---------------------------------------------------------------------------
(* Is it decided?  A is a set of representative letters of both expressions. *)
Firsts(A, L) == {a \in A : NonEmpty(D(a, L))}
Follows(A, L) == UNION {Firsts(A, x) : x \in {x \in Closure({L}, {L}, A) : x[2]}}   \* letters continuing a text of L
Inner(A, L) == LET Y == Derivs(L, A) IN UNION {Firsts(A, x) : x \in Closure(Y, Y, A)}   \* letters after the first one
NoEndMark(L) == LET Y == Closure({L}, {L}, ClassReps(SetsOf(L))) IN ~\E x \in Y : NonEmpty(D(EndMark, x))
SuffixClosed(L) == ~NonEmpty(And({SuffixesOf(L), Not(L), Cat(AnySym, Top)}))
Decision(re, sep) ==
  LET A == TLCEval(ClassReps(SetsOf(re) \cup SetsOf(sep)))
      f1 == TLCEval(Firsts(A, re))  f2 == TLCEval(Firsts(A, sep))
      g1 == TLCEval(Follows(A, re)) g2 == TLCEval(Follows(A, sep))
      n1 == TLCEval(Inner(A, re))   n2 == TLCEval(Inner(A, sep))
  IN IF re[2] \/ ~NonEmpty(sep) THEN "none"
     ELSE IF ~sep[2] THEN (IF g1 \cap f2 = {} /\ g2 \cap f1 = {}
                           THEN IF (f1 \cup n1) \cap (f2 \cup n2) = {} THEN "apart"
                                ELSE IF f1 \cap (n1 \cup f2 \cup n2) = {} THEN "marked" ELSE "none" ELSE "none")
     ELSE IF g1 \cap (f2 \cup f1) = {} /\ g2 \cap f1 = {} /\ f1 \cap (n1 \cup f2 \cup n2) = {} THEN "apart"
     ELSE IF sep = Star(DotSym) /\ g1 = {} THEN "any" ELSE "none"

\* <<"chain", emitted, class, expression, separator, "eq", "le" or "none", name>>
\* name tells components which must count alike from the others
ChainVal(cls, re, sep0, simple) ==
  LET d == Decision(re, sep0)
      sep == IF cls = "C" THEN And({sep0, Not(Surrounded(re))}) ELSE sep0
      rel == IF re[2] \/ simple THEN "none"
             ELSE IF cls = "C" THEN (IF d \in {"apart", "any"} /\ SuffixClosed(re) /\ SuffixClosed(sep0) /\ NoEndMark(re) /\ NoEndMark(sep0) THEN "eq" ELSE "none")
             ELSE IF d # "none" THEN "eq" ELSE "le"
  IN <<"chain", FALSE, cls, re, sep, rel, <<cls, re, sep0>>>>
\* counts reported against the longest chain
CountFits(v, x, n) == v[6] = "none" \/ n = x.best \/ (v[6] = "le" /\ n < x.best)
\* the simple scanner counts a match when it has seen what follows
CountsSoFar(v, x, n) == IF v[3] = "C" THEN v[6] = "none" \/ n <= x.best ELSE CountFits(v, x, n)
ChainOf(v, w) == IF v[6] = "none" THEN ChainInit ELSE FoldLeft(LAMBDA x, a : ChainStep(a, x, v[3], v[4], v[5]), ChainInit, w)
=============================================================================
