----------------------------- MODULE GreedyLaw -----------------------------
(* The machine specified for the greedy counters counts what a greedy search *)
(* finds: from the left, at each position the longest match, resumed behind  *)
(* it.  Checked on every text of up to Depth letters between the marks.      *)
EXTENDS HalfFinal
CONSTANTS Depth

\* ab+c|b  a|aac  (ab)+  a+  [ab]+c  a.b  ab|ba  aa  a*b  a{2,3}  ^a  b$  abc|bc|c  (aa|bb)+  .*a  a.*  ^ab|b$  (a|ab)(c|bcd)  a.?.?b
Pats == << <<97, 98, 43, 99, 124, 98>>, <<97, 124, 97, 97, 99>>, <<40, 97, 98, 41, 43>>, <<97, 43>>, <<91, 97, 98, 93, 43, 99>>, <<97, 46, 98>>,
           <<97, 98, 124, 98, 97>>, <<97, 97>>, <<97, 42, 98>>, <<97, 123, 50, 44, 51, 125>>, <<94, 97>>, <<98, 36>>, <<97, 98, 99, 124, 98, 99, 124, 99>>,
           <<40, 97, 97, 124, 98, 98, 41, 43>>, <<46, 42, 97>>, <<97, 46, 42>>, <<94, 97, 98, 124, 98, 36>>, <<40, 97, 124, 97, 98, 41, 40, 99, 124, 98, 99, 97, 41>>,
           <<97, 46, 63, 46, 63, 98>>, <<97, 98, 97, 124, 98, 124, 97, 98, 97, 98, 99>> >>
Lang == TLCEval([i \in 1..Len(Pats) |-> Parse({}, Pats[i])[2]])

VARIABLES k, g, tot, word
vars == <<k, g, tot, word>>
Begin(i) == GreedyStep(BeginMark, Greedy(Lang[i], MaxCountDepth))
Init == \E i \in 1..Len(Pats) : \E x \in {Begin(i)} : k = i /\ g = x /\ tot = Greedy(Lang[i], MaxCountDepth)[6] + x[6] /\ word = <<BeginMark>>
Next == /\ Len(word) <= Depth
        /\ \E a \in {97, 98, 99} : \E x \in {GreedyStep(a, g)} : g' = x /\ tot' = tot + x[6] /\ word' = Append(word, a)
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars

\* length of the longest match at the beginning of w from i on, 0: none
RECURSIVE Longest(_, _, _, _, _)
Longest(L, w, i, n, best) ==
  LET b == IF L[2] /\ n > 0 THEN n ELSE best
  IN IF i + n > Len(w) \/ L = None THEN b ELSE Longest(D(w[i + n], L), w, i, n + 1, b)
RECURSIVE Search(_, _, _)
Search(L, w, i) ==
  IF i > Len(w) THEN 0
  ELSE LET n == Longest(L, w, i, 0, 0) IN IF n = 0 THEN Search(L, w, i + 1) ELSE 1 + Search(L, w, i + n)
CountsGreedily == tot + GreedyStep(EndMark, g)[6] = Search(Lang[k], Append(word, EndMark), 1)
=============================================================================
