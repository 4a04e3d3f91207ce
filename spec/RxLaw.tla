------------------------------- MODULE RxLaw -------------------------------
(* The derivatives of the specification agree with the definitions of the    *)
(* operations on languages, for all pairs of small expressions and all texts *)
(* of up to Depth letters.                                                   *)
EXTENDS Rx
CONSTANTS Depth

a == Ch(97)  b == Ch(98)
Base == << a, Eps, None, Top, Cat(a, b), Alt({a, Cat(a, b)}), Star(a), Star(Cat(a, b)), Opt(Cat(b, a)), Cat(Star(DotSym), a), Not(Cat(a, Top)), And({Cat(a, Top), Cat(Top, b)}),
           Alt({Cat(b, Star(a)), Cat(a, a)}), Cat(Ch(BeginMark), a), Power(Alt({a, Cat(b, b)}), 2), Repeat(a, 1, 3) >>
Letters == {97, 98, BeginMark}

VARIABLES i, j, w
vars == <<i, j, w>>
Init == i \in 1..Len(Base) /\ j \in 1..Len(Base) /\ w = <<>>
Next == Len(w) < Depth /\ \E c \in Letters : w' = Append(w, c) /\ UNCHANGED <<i, j>>
Spec == Init /\ [][Next]_vars

x == Base[i]
y == Base[j]
Sub(u, p, q) == SubSeq(u, p, q)
RECURSIVE InStar(_, _)
InStar(u, r) == u = <<>> \/ \E n \in 1..Len(u) : Accepts(r, Sub(u, 1, n)) /\ InStar(Sub(u, n + 1, Len(u)), r)
RECURSIVE InPower(_, _, _)
InPower(u, r, n) == IF n = 0 THEN u = <<>> ELSE \E m \in 0..Len(u) : Accepts(r, Sub(u, 1, m)) /\ InPower(Sub(u, m + 1, Len(u)), r, n - 1)
Back(u) == [n \in 1..Len(u) |-> u[Len(u) + 1 - n]]
\* texts one edit away
Edits(u) == {Sub(u, 1, n) \o <<c>> \o Sub(u, n + 1, Len(u)) : n \in 0..Len(u), c \in Letters \cup {99}}
            \cup {Sub(u, 1, n - 1) \o Sub(u, n + 1, Len(u)) : n \in 1..Len(u)}
            \cup {[u EXCEPT ![n] = c] : n \in 1..Len(u), c \in Letters \cup {99}}
            \cup {[u EXCEPT ![n] = u[n + 1], ![n + 1] = u[n]] : n \in 1..(Len(u) - 1)}
Tails == UNION {[1..n -> Letters] : n \in 0..3}

Unary == j = 1 =>
  /\ Accepts(Not(x), w) = ~Accepts(x, w)
  /\ Accepts(Star(x), w) = InStar(w, x)
  /\ \A n \in 0..3 : Accepts(Power(x, n), w) = InPower(w, x, n)
  /\ Accepts(Repeat(x, 1, 3), w) = \E n \in 1..3 : InPower(w, x, n)
  /\ Accepts(Repeat(x, 2, -1), w) = \E n \in 2..(Len(w) + 2) : InPower(w, x, n)
  /\ Accepts(Rev(x), w) = Accepts(x, Back(w))
  /\ Accepts(Surrounded(x), w) = \E p \in 1..(Len(w) + 1) : \E q \in (p - 1)..Len(w) : Accepts(x, Sub(w, p, q))
  /\ Accepts(PrefixesOf(x), w) = \E t \in Tails : Accepts(x, w \o t)
  /\ Accepts(SuffixesOf(x), w) = \E t \in Tails : Accepts(x, t \o w)
  /\ Accepts(Approx(x, 1), w) = (Accepts(x, w) \/ \E u \in Edits(w) : Accepts(x, u))
  /\ NonEmpty(x) = \E t \in Tails : Accepts(x, t)
Binary ==
  /\ Accepts(Cat(x, y), w) = \E n \in 0..Len(w) : Accepts(x, Sub(w, 1, n)) /\ Accepts(y, Sub(w, n + 1, Len(w)))
  /\ Accepts(Alt({x, y}), w) = (Accepts(x, w) \/ Accepts(y, w))
  /\ Accepts(And({x, y}), w) = (Accepts(x, w) /\ Accepts(y, w))
  /\ Accepts(Star(Alt({x, y})), w) = InStar(w, Alt({x, y}))
  /\ Accepts(Not(Cat(x, y)), w) = ~Accepts(Cat(x, y), w)
  /\ Accepts(Rev(Cat(x, y)), w) = Accepts(Cat(x, y), Back(w))
=============================================================================
