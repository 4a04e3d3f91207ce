------------------------------- MODULE Utf8 -------------------------------
(* UTF-8 (RFC 3629), as byte strings of code points, as languages, and as a  *)
(* recogniser of well-formed texts and their prefixes.                       *)
EXTENDS Rx, TLC

MaxUnicode == 1114111

M64(x) == x % 64
Encode(c) ==
  CASE c < 128   -> <<c>>
    [] c < 2048  -> <<192 + c \div 64, 128 + M64(c)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + M64(c \div 64), 128 + M64(c)>>
    [] OTHER     -> <<240 + c \div 262144, 128 + M64(c \div 4096), 128 + M64(c \div 64), 128 + M64(c)>>

\* a finite set of numbers as a set of intervals
Intervals(S) ==
  LET los == {x \in S : (x - 1) \notin S}
      his == {x \in S : (x + 1) \notin S}
  IN {<<l, CHOOSE h \in his : h >= l /\ \A g \in his : g >= l => h <= g>> : l \in los}

\* the language of a set of byte strings of equal length
RECURSIVE Trie(_)
Trie(T) ==
  IF T = {} THEN None
  ELSE IF Len(CHOOSE t \in T : TRUE) = 1 THEN Sym(Intervals({t[1] : t \in T}))
  ELSE LET heads == {t[1] : t \in T}
           rest  == [h \in heads |-> {Tail(t) : t \in {u \in T : u[1] = h}}]
           tails == {rest[h] : h \in heads}
       IN Alt({Cat(Sym(Intervals({h \in heads : rest[h] = x})), Trie(x)) : x \in tails})

Utf8Set(S) ==         \* language of the encodings of a set of code points
  LET E == {Encode(c) : c \in S}
  IN Alt({Trie({e \in E : Len(e) = n}) : n \in 1..4})

Tl == <<128, 191>>
Rng(l, h) == Sym({<<l, h>>})
TlS == Sym({Tl})
Utf8Dot == Alt({ Rng(0, 127),
                 Cat(Rng(194, 223), TlS),
                 Cat(Rng(224, 224), Cat(Rng(160, 191), TlS)),
                 Cat(Sym({<<225, 236>>, <<238, 239>>}), Cat(TlS, TlS)),
                 Cat(Rng(237, 237), Cat(Rng(128, 159), TlS)),
                 Cat(Rng(240, 240), Cat(Rng(144, 191), Cat(TlS, TlS))),
                 Cat(Rng(241, 243), Cat(TlS, Cat(TlS, TlS))),
                 Cat(Rng(244, 244), Cat(Rng(128, 143), Cat(TlS, TlS))) })

Utf8Text == Star(Utf8Dot)
\* what may follow, as a language; None once the text is no prefix of well-formed UTF-8
Utf8Next(v, a) == IF a = BeginMark \/ a = EndMark THEN (IF v = Utf8Text THEN v ELSE None) ELSE D(a, v)

\* decoding: <<ok, code points>>
Cont(b) == b >= 128 /\ b <= 191
RECURSIVE Decode(_)
Decode(w) ==
  IF w = <<>> THEN <<TRUE, <<>>>>
  ELSE LET b == w[1]
           n == IF b < 128 THEN 1 ELSE IF b >= 194 /\ b <= 223 THEN 2
                ELSE IF b >= 224 /\ b <= 239 THEN 3 ELSE IF b >= 240 /\ b <= 244 THEN 4 ELSE 0
       IN IF n = 0 \/ Len(w) < n \/ \E i \in 2..n : ~Cont(w[i]) THEN <<FALSE, <<>>>>
          ELSE LET c == CASE n = 1 -> b
                          [] n = 2 -> (b - 192) * 64 + (w[2] - 128)
                          [] n = 3 -> (b - 224) * 4096 + (w[2] - 128) * 64 + (w[3] - 128)
                          [] OTHER -> (b - 240) * 262144 + (w[2] - 128) * 4096 + (w[3] - 128) * 64 + (w[4] - 128)
                   ok == Encode(c) = SubSeq(w, 1, n) /\ c <= MaxUnicode
                         /\ ~(c >= 55296 /\ c <= 57343)
                   r == Decode(SubSeq(w, n + 1, Len(w)))
               IN IF ok /\ r[1] THEN <<TRUE, <<c>> \o r[2]>> ELSE <<FALSE, <<>>>>
=============================================================================
