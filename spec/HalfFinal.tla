----------------------------- MODULE HalfFinal -----------------------------
(* Half-final scanners add to a regexp's counter whenever they enter certain *)
(* states.  A component is an expression (one is added after every text of   *)
(* it) or, for the greedy counters, a machine following the pending matches. *)
EXTENDS Syntax, SequencesExt

\* the texts of X no proper prefix of which is one
First(X) == And({X, Not(Cat(X, Cat(AnySym, Top)))})
RightIdeal(L) == ~NonEmpty(And({Cat(L, AnySym), Not(L)}))

\* d, s: a scanner proper; n, n0: ends of matches, with and without simplification; x, x0: separated matches
HalfLang(mode, L) ==
  CASE mode \in {"d", "s"} -> IF RightIdeal(L) THEN Cat(Top, First(L)) ELSE Cat(And({L, Cat(Top, Ch(EndMark))}), Top)
    [] mode = "n0" -> Cat(Top, L)
    [] mode = "n"  -> Cat(Top, First(Cat(Top, L)))
    [] mode \in {"x", "x0"} -> Plus(First(Cat(Top, L)))

---------------------------------------------------------------------------
(* The minimal deterministic automaton of a language: letters are grouped    *)
(* into classes; state 0 is the dead one, from which nothing can match.      *)
ClassReps(sets) == LET cs == Cuts(sets)
                      sg == TLCEval([c \in cs |-> {X \in sets : In(c, X)}])
                  IN {c \in cs : ~\E b \in cs : b < c /\ sg[b] = sg[c]}
RECURSIVE Moore(_, _, _, _, _)
Moore(St, A, delta, part, n) ==
  LET sg == TLCEval([s \in St |-> <<part[s], [a \in A |-> part[delta[s][a]]]>>])
      rep == TLCEval([s \in St |-> CHOOSE x \in St : sg[x] = sg[s] /\ \A y \in St : y < x => sg[y] # sg[s]])
      m == Cardinality({rep[s] : s \in St})
  IN IF m = n THEN part ELSE Moore(St, A, delta, rep, m)
Dfa(L) ==
  LET sets == SetsOf(L)
      A == ClassReps(sets)
      R == SetToSeq(Closure({L}, {L}, A))
      St == 1..Len(R)
      idx(x) == CHOOSE i \in St : R[i] = x
      delta == TLCEval([i \in St |-> [a \in A |-> idx(D(a, R[i]))]])
      p0 == TLCEval([i \in St |-> IF R[i][2] THEN 1 ELSE 2])
      part == Moore(St, A, delta, p0, Cardinality({p0[i] : i \in St}))
      dead == TLCEval([i \in St |-> ~NonEmpty(R[i])])
      name == TLCEval([i \in St |-> IF dead[i] THEN 0 ELSE part[i]])
      Ns == {name[i] : i \in St} \ {0}
      one(q) == CHOOSE i \in St : name[i] = q
  IN [sets |-> sets, A |-> A, i |-> name[idx(L)], fin |-> {q \in Ns : R[one(q)][2]},
      t |-> TLCEval([q \in Ns |-> [a \in A |-> name[delta[one(q)][a]]]])]
DfaStep(d, q, a) ==
  IF q = 0 THEN 0 ELSE LET c == CHOOSE c \in d.A : \A X \in d.sets : In(a, X) = In(c, X) IN d.t[q][c]

---------------------------------------------------------------------------
(* Greedy counters.  The threads are the matches under way, the leftmost     *)
(* first: <<copy, state, matches counted on this way, this match is counted>>; *)
(* last is the count of the way that has matched last; what all ways have in *)
(* common is added at once, the rest at the end mark.  No way may be more    *)
(* than max matches ahead of another.                                        *)
AddThread(d, acc, cp, q, n, counted, force) ==   \* acc = <<threads, last>>
  LET fin == q \in d.fin
      n1 == IF fin /\ ~counted THEN n + 1 ELSE n
      l1 == IF fin THEN n1 ELSE acc[2]
  IN IF \E i \in 1..Len(acc[1]) : acc[1][i][1] = cp /\ acc[1][i][2] = q THEN acc
     ELSE IF acc[1] = <<>> \/ force \/ ~(acc[1][Len(acc[1])][2] \in d.fin)
     THEN <<Append(acc[1], <<cp, q, n1, counted \/ fin>>), l1>>
     ELSE acc
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
Lesser(x, y) == IF x < y THEN x ELSE y
\* a new match may start here; the common part of the counts is added
Settle(d, acc, lastCount, max) ==
  LET old == acc[1]
      lc == IF old # <<>> /\ old[Len(old)][2] \in d.fin THEN old[Len(old)][3] ELSE lastCount
      b == AddThread(d, acc, 1, d.i, lc, FALSE, TRUE)
      th == [i \in 1..Len(b[1]) |-> [b[1][i] EXCEPT ![3] = Lesser(b[1][i][3], max)]]
      m == MinOf({th[i][3] : i \in 1..Len(th)})
  IN [th |-> [i \in 1..Len(th) |-> [th[i] EXCEPT ![3] = @ - m]], last |-> Lesser(b[2], max) - m, add |-> m]
\* <<"greedy", something was added, automaton, threads, last, added, max>>
GreedyVal(d, x, max) == <<"greedy", x.add > 0, d, x.th, x.last, x.add, max>>
Greedy(L, max) == GreedyVal(Dfa(L), Settle(Dfa(L), <<<<>>, 0>>, 0, 1), max)
GreedyStep(a, g) ==
  LET d == g[3]  th == g[4]
      add(acc, x) ==
        LET q == DfaStep(d, x[2], a)
        IN IF a = EndMark THEN AddThread(d, acc, 2, IF q = 0 THEN d.i ELSE q, x[3], x[4], FALSE)
           ELSE IF q = 0 THEN acc ELSE AddThread(d, acc, 1, q, x[3], x[4], FALSE)
      y == Settle(d, FoldLeft(add, <<<<>>, g[5]>>, th), th[Len(th)][3], g[7])
  IN IF a # EndMark THEN GreedyVal(d, y, g[7])
     ELSE LET z == AddThread(d, <<<<>>, 0>>, 1, d.i, 0, FALSE, TRUE)
          IN GreedyVal(d, [th |-> z[1], last |-> z[2], add |-> y.add + y.last], g[7])
CompSets(x) == IF x[1] = "greedy" THEN x[3].sets ELSE SetsOf(x)

MaxCountDepth == 10
HalfVal(mode, L) == IF mode = "g" THEN Greedy(L, 1) ELSE IF mode = "g0" THEN Greedy(L, MaxCountDepth) ELSE HalfLang(mode, L)
=============================================================================
