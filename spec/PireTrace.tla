----------------------------- MODULE PireTrace -----------------------------
(* Conformance: every case of the file named by TRACE is a history of calls  *)
(* with the results the real library gave.  Each event is matched by the     *)
(* action of the machine for that call; a result the machine does not allow  *)
(* makes the state "bad".  At a dump event (the complete transition table of *)
(* a real automaton or scanner) the specification additionally explores the  *)
(* product of that table with the derivatives of the abstract value: every   *)
(* state reachable by any text whatsoever is compared.                       *)
EXTENDS Inline, Json, IOUtils, Integers, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid,     \* the case
          pos,     \* the event to be matched next
          phase,   \* "run", or "explore" inside a dump
          F, S, B, \* registers of the machine
          T,       \* scanner register -> event that holds its table
          ex,      \* exploration state
          word,    \* text explored so far (not part of the state's identity)
          bad      \* "" or what is wrong
vars == <<tid, pos, phase, F, S, B, T, ex, word, bad>>
View == <<tid, pos, phase, F, S, B, T, ex, bad>>

NoEx == [at |-> 0]
Ev == Cases[tid].ev
E == Ev[pos]
Op == E.op
V == E.v

Init ==
  /\ tid \in 1..Len(Cases) /\ pos = 1 /\ phase = "run"
  /\ F = <<>> /\ S = <<>> /\ B = <<>> /\ T = <<>> /\ ex = NoEx /\ word = <<>> /\ bad = ""

Is(name) == phase = "run" /\ bad = "" /\ pos <= Len(Ev) /\ Op[1] = name
Next1 == pos' = pos + 1 /\ UNCHANGED <<tid, phase, ex, word>>
Check(ok, what) == bad' = IF ok THEN "" ELSE what
SetF(r, v) == F' = Put(F, r, v)
SetS(r, v) == S' = Put(S, r, v) /\ T' = Drop(T, {r})
SV(r) == S[r]

---------------------------------------------------------------------------
(* Patterns *)
ParseOp ==     \* fparse R opts codes
  /\ Is("fparse") /\ Next1 /\ UNCHANGED <<S, B, T>>
  /\ \E p \in {Parse(Elems(Op[3]), Op[4])} :
        /\ Check(E.k = (IF p[1] THEN "ok" ELSE "err"),
                 IF p[1] THEN "well-formed pattern refused" ELSE "malformed pattern not refused with an error")
        /\ IF p[1] THEN SetF(Op[2], p[2]) ELSE UNCHANGED F
PatternOf(o, bytes) ==
  LET d == IF "u" \in o THEN Decode(bytes) ELSE <<\A i \in 1..Len(bytes) : bytes[i] < 128, bytes>>
  IN IF d[1] THEN Parse(o, d[2]) ELSE <<FALSE, None>>
ParseBytes ==  \* fparseb R opts bytes
  /\ Is("fparseb") /\ Next1 /\ UNCHANGED <<S, B, T>>
  /\ \E p \in {PatternOf(Elems(Op[3]), Op[4])} :
        /\ Check(E.k = (IF p[1] THEN "ok" ELSE "err"), "verdict on a pattern given as bytes")
        /\ IF p[1] THEN SetF(Op[2], p[2]) ELSE UNCHANGED F
LexNew == Is("lexnew") /\ Next1 /\ Check(E.k = "ok", "lexnew") /\ UNCHANGED <<S, T, B>> /\ F' = Put(F, "lexer " \o Op[2], Op[3])
LexParse ==    \* lexparse L R codes, with a lexer used before
  /\ Is("lexparse") /\ Next1 /\ UNCHANGED <<S, B, T>>
  /\ \E p \in {Parse(Elems(F["lexer " \o Op[2]]), Op[4])} :
        /\ Check(E.k = (IF p[1] THEN "ok" ELSE "err"), "verdict of a reused lexer")
        /\ IF p[1] THEN SetF(Op[3], p[2]) ELSE UNCHANGED F
DecodeOp ==    \* decode enc bytes
  /\ Is("decode") /\ Next1 /\ UNCHANGED <<F, S, B, T>>
  /\ LET d == IF Op[2] = "u" THEN Decode(Op[3]) ELSE <<\A i \in 1..Len(Op[3]) : Op[3][i] < 128, Op[3]>>
     IN Check(IF d[1] THEN E.k = "ok" /\ V = d[2] ELSE E.k = "err", "decoding")
DecodeBy(e, w) == IF e = "u" THEN Decode(w) ELSE <<\A i \in 1..Len(w) : w[i] < 128, w>>
EncodeBy(e, c) == IF e = "u" THEN Encode(c) ELSE IF c < 128 THEN <<c>> ELSE <<>>
\* whether encodings of surrogates are refused is left open
Surrogate(w) == \E i \in 1..(Len(w) - 1) : w[i] = 237 /\ w[i + 1] >= 160 /\ w[i + 1] <= 191
DecodeMany ==  \* decodeall enc prefix alphabet k = for each sequence of up to k bytes behind the prefix, whether it is well-formed and the characters
  /\ Is("decodeall") /\ Next1 /\ UNCHANGED <<F, S, B, T>>
  /\ LET al == Op[4]  n == Len(al)
         Before(j) == FoldLeft(LAMBDA a, x : a + n ^ (x - 1), 0, [x \in 1..j |-> x])     \* sequences shorter than j
         Word(j, i) == Op[3] \o [d \in 1..j |-> al[((i \div (n ^ (j - d))) % n) + 1]]
         Want(j, i) == LET d == DecodeBy(Op[2], Word(j, i)) IN IF d[1] THEN <<1>> \o d[2] ELSE <<0>>
     IN Check(E.k = "ok" /\ \A j \in 0..Op[5] : \A i \in 0..(n ^ j - 1) : Surrogate(Word(j, i)) \/ V[Before(j) + i + 1] = Want(j, i), "decoding")
CodesAct ==    \* codes enc from to step = each character's bytes, and what these are decoded to
  /\ Is("codes") /\ Next1 /\ UNCHANGED <<F, S, B, T>>
  /\ Check(E.k = "ok" /\ \A i \in 1..Len(V) : LET c == Op[3] + (i - 1) * Op[5]  b == EncodeBy(Op[2], c)
                                             IN (c >= 55296 /\ c <= 57343) \/ V[i] = <<b, IF b = <<>> THEN -1 ELSE c>>, "encoding")
EncodeOp ==    \* encode enc code
  /\ Is("encode") /\ Next1 /\ UNCHANGED <<F, S, B, T>>
  /\ Check(E.k = "ok" /\ V = (IF Op[2] = "u" THEN Encode(Op[3]) ELSE IF Op[3] < 128 THEN <<Op[3]>> ELSE <<>>), "encoding")

---------------------------------------------------------------------------
(* Automata *)
FsmSwap ==
  /\ Is("f") /\ Op[2] = "swap" /\ Next1 /\ UNCHANGED <<S, B, T>> /\ Check(E.k = "ok", "swap failed")
  /\ F' = Put(Put(F, Op[3], FsmVal(F, Op[4])), Op[4], FsmVal(F, Op[3]))
FsmAct ==
  /\ Is("f") /\ Op[2] # "swap" /\ Next1 /\ UNCHANGED <<S, B, T>>
  /\ LET refused == Op[2] = "strs" /\ \E i \in 4..Len(Op) : Op[i] = <<>>     \* none of the strings may be empty
     IN /\ Check(IF refused THEN E.k = "err" ELSE E.k = "ok" \/ (E.k = "err" /\ Op[2] = "canon" /\ Len(Op) > 3), "automaton operation failed")
        /\ SetF(Op[3], IF refused THEN FsmVal(F, Op[3]) ELSE FsmOp(F, Op))

---------------------------------------------------------------------------
(* Scanners *)
Compiled ==
  LET L == Approx(FsmVal(F, Op[4]), IF Len(Op) > 4 THEN Op[5] ELSE 0)
  IN IF Op[3] \in HalfKinds THEN HalfVal("s", L) ELSE L
Compile ==     \* scompile S type F [distance]
  /\ Is("scompile") /\ Next1 /\ UNCHANGED <<F, B>>
  /\ Check(E.k = "ok", "compilation failed")
  /\ SetS(Op[2], Scanner(Op[3], <<Compiled>>))
CompileIn ==   \* scompilein S type F [distance]: from the register itself
  /\ Is("scompilein") /\ Next1 /\ UNCHANGED <<F, B>>
  /\ Check(E.k = "ok", "compilation failed")
  /\ SetS(Op[2], Scanner(Op[3], <<Compiled>>))
Half ==        \* shalf S type F mode
  /\ Is("shalf") /\ Next1 /\ UNCHANGED <<F, B>>
  /\ Check(E.k = "ok", "construction of a half-final scanner failed")
  /\ SetS(Op[2], Scanner(Op[3], <<HalfVal(Op[5], FsmVal(F, Op[4]))>>))
CapNew ==      \* scap S type tree opts pattern number: the surrounded pattern is compiled
  /\ Is("scap") /\ Next1 /\ UNCHANGED <<F, B>>
  /\ Check(E.k = "ok" /\ CapText(Op[4]) = Op[6] /\ CapIndex(Op[4]) = Op[7], "construction of a capturing scanner failed")
  /\ SetS(Op[2], Scanner(Op[3], << <<"cap", FALSE, Op[4], "u" \in Elems(Op[5])>> >>))
CountNew ==    \* scount S type re sep = the simplified construction was used
  /\ Is("scount") /\ Next1 /\ UNCHANGED <<F, B>>
  /\ Check(E.k = "ok", "construction of a counting scanner failed")
  /\ \E v \in {ChainVal(IF Op[3] = "C" THEN "C" ELSE "A", FsmVal(F, Op[4]), FsmVal(F, Op[5]), V = 1)} : SetS(Op[2], Scanner(Op[3], <<v>>))
EmptyScanner == Is("sempty") /\ Next1 /\ UNCHANGED <<F, B>> /\ Check(E.k = "ok", "empty scanner") /\ SetS(Op[2], Scanner(Op[3], <<>>))

\* number of states of the product of two tables, counted up to lim
ClassOfLetter(bp, a) == LET i == CHOOSE i \in 1..Len(bp) : bp[i][1] <= a /\ (i = Len(bp) \/ bp[i + 1][1] > a) IN bp[i][2]
TableLetters(d1, d2) == {<<ClassOfLetter(d1.bp, c), ClassOfLetter(d2.bp, c)>> : c \in {d1.bp[i][1] : i \in 1..Len(d1.bp)} \cup {d2.bp[i][1] : i \in 1..Len(d2.bp)}}
RECURSIVE Product(_, _, _, _, _, _)
Product(d1, d2, ls, todo, seen, lim) ==
  IF todo = {} \/ Cardinality(seen) > lim THEN Cardinality(seen)
  ELSE LET next == {<<d1.t[s[1]][l[1]], d2.t[s[2]][l[2]]>> : s \in todo, l \in ls} \ seen
       IN Product(d1, d2, ls, next, seen \cup next, lim)
ProductSize(d1, d2, lim) == Product(d1, d2, TableLetters(d1, d2), {<<1, 1>>}, {<<1, 1>>}, lim)

GlueAct ==     \* sglue R A B [limit]; result 0: an empty scanner
  /\ Is("sglue") /\ Next1 /\ UNCHANGED <<F, B>>
  /\ LET a == SV(Op[3])  b == SV(Op[4])  lim == IF Len(Op) > 4 THEN Op[5] ELSE 0
         many == a.t \in {"C", "A"} /\ Len(a.cs) + Len(b.cs) > 16
         plain == a.cs = <<>> \/ b.cs = <<>>          \* nothing to combine
         sized == Op[3] \in DOMAIN T /\ Op[4] \in DOMAIN T
     IN \E n \in {IF lim > 0 /\ sized THEN ProductSize(Ev[T[Op[3]]].v, Ev[T[Op[4]]].v, lim + 2) ELSE 0} :
        IF E.k # "ok" THEN Check(FALSE, "glue failed") /\ UNCHANGED <<S, T>>
        ELSE IF V = 0
        THEN /\ Check(IF many THEN TRUE ELSE IF plain THEN a.cs = <<>> /\ b.cs = <<>>
                      ELSE lim > 0 /\ (sized => n > lim), "glue gave an empty scanner within the limit")
             /\ SetS(Op[2], Scanner(a.t, <<>>))
        ELSE /\ Check(~many /\ ((lim > 0 /\ ~plain /\ sized) => n <= lim + 1), "glue exceeded the limit")
             /\ SetS(Op[2], Scanner(a.t, a.cs \o b.cs))
\* cycles type limit lengths rests texts: the texts whose length divided by lengths[k] leaves rests[k],
\* glued one after another; such a product has as many states as the smallest common multiple, and a dead one
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
CycleStates(ps) == 1 + FoldLeft(LAMBDA x, y : (x \div Gcd(x, y)) * y, 1, ps)
CyclesAct ==
  /\ Is("cycles") /\ Next1 /\ UNCHANGED <<F, S, B, T>>
  /\ IF E.k # "ok" THEN Check(FALSE, "gluing cycles failed")
     ELSE LET lim == Op[3]  ps == Op[4]  rs == Op[5]
              size(cur) == CycleStates([i \in DOMAIN cur |-> ps[cur[i]]])
              Stage(x, k) ==    \* <<right so far, the parts of the scanner>>
                LET n == size(Append(x[2], k))
                IN IF V.e[k - 1] = 1 THEN <<x[1] /\ x[2] # <<>> /\ (IF lim = 0 THEN n > 50000 ELSE n > lim), <<>> >>
                   ELSE <<x[1] /\ (x[2] = <<>> \/ lim = 0 \/ n <= lim + 1), Append(x[2], k)>>
          IN \E r \in {FoldLeft(Stage, <<TRUE, <<1>> >>, [k \in 1..(Len(ps) - 1) |-> k + 1])} :
             LET acc(n) == SelectSeq([i \in DOMAIN r[2] |-> IF n % ps[r[2][i]] = rs[r[2][i]] THEN i ELSE 0], LAMBDA i : i > 0)
             IN Check(/\ r[1] /\ V.c = Len(r[2]) /\ (r[2] # <<>> => V.n = size(r[2]))
                      /\ \A i \in DOMAIN Op[6] : r[2] # <<>> => V.acc[i] = <<IF acc(Op[6][i]) = <<>> THEN 0 ELSE 1, acc(Op[6][i])>>,
                      "glued cycles")
Convert ==     \* sconv R type A
  /\ Is("sconv") /\ Next1 /\ UNCHANGED <<F, B>> /\ Check(E.k = "ok", "conversion failed")
  /\ SetS(Op[2], [SV(Op[4]) EXCEPT !.t = Op[3]])
CopyAct ==
  /\ (Is("scopy") \/ Is("sassign")) /\ Next1 /\ UNCHANGED <<F, B>> /\ Check(E.k = "ok", "copying failed")
  /\ SetS(Op[2], SV(Op[3]))
SwapAct ==
  /\ (Is("sswap") \/ Is("sstdswap")) /\ Next1 /\ UNCHANGED <<F, B>> /\ Check(E.k = "ok", "swapping failed")
  /\ S' = Put(Put(S, Op[2], SV(Op[3])), Op[3], SV(Op[2])) /\ T' = Drop(T, {Op[2], Op[3]})
MoveAct ==     \* the object moved from may hold anything afterwards
  /\ (Is("smove") \/ Is("smoveassign")) /\ Next1 /\ UNCHANGED <<F, B>> /\ Check(E.k = "ok", "moving failed")
  /\ S' = IF Op[2] = Op[3] THEN S ELSE Put(Put(S, Op[3], Unknown(SV(Op[3]).t)), Op[2], SV(Op[3]))
  /\ T' = Drop(T, {Op[2], Op[3]})
Destroy == Is("sdel") /\ Next1 /\ UNCHANGED <<F, B>> /\ bad' = "" /\ S' = Drop(S, {Op[2]}) /\ T' = Drop(T, {Op[2]})
Info ==        \* sinfo S = <<empty, size, number of regexps>>
  /\ Is("sinfo") /\ Next1 /\ UNCHANGED <<F, S, B, T>>
  /\ LET s == SV(Op[2])
     IN Check(~s.known \/ (E.k = "ok" /\ (V[1] = 1) = (s.cs = <<>>) /\ V[3] = Len(s.cs)), "emptiness or number of regexps")

---------------------------------------------------------------------------
(* Buffers: [e: stored <<scanner, length>>, i: next to be read, ok: not tampered with] *)
NoBuf == [e |-> <<>>, i |-> 1, ok |-> TRUE]
BV(r) == Get(B, r, NoBuf)
Save ==        \* ssave B S = bytes written
  /\ Is("ssave") /\ Next1 /\ UNCHANGED <<F, S, T>>
  /\ Check(E.k = "ok", "saving failed")
  /\ LET b == BV(Op[2]) IN B' = Put(B, Op[2], [b EXCEPT !.e = Append(b.e, <<SV(Op[3]), V>>)])
Load ==        \* sload S B = bytes consumed; smmap likewise
  /\ (Is("sload") \/ Is("smmap")) /\ Next1 /\ UNCHANGED F
  /\ LET b == BV(Op[3])
         t == SV(Op[2]).t
         have == b.ok /\ b.i <= Len(b.e)
         x == b.e[b.i]
         fits == have /\ SameForm(t, x[1].t)
     IN IF fits
        THEN /\ Check(E.k = "ok" /\ V = x[2], "a stored scanner was not restored, or not exactly its bytes were consumed")
             /\ SetS(Op[2], [x[1] EXCEPT !.t = t])
             /\ B' = Put(B, Op[3], [b EXCEPT !.i = b.i + 1])
        ELSE IF ~have \/ Refused(t, x[1].t)
        THEN /\ Check(E.k = "err", "bad data was not refused with an error")
             /\ SetS(Op[2], Unknown(t))
             /\ B' = Put(B, Op[3], [b EXCEPT !.ok = FALSE])
        ELSE /\ bad' = "" /\ SetS(Op[2], Unknown(t)) /\ B' = Put(B, Op[3], [b EXCEPT !.ok = FALSE])
MmapMisaligned ==  \* smmapmis S B offset
  /\ Is("smmapmis") /\ Next1 /\ UNCHANGED <<F, B>> /\ Check(E.k = "err", "unaligned data was not refused")
  /\ SetS(Op[2], Unknown(SV(Op[2]).t))
BufClear == Is("bclear") /\ Next1 /\ UNCHANGED <<F, S, T>> /\ bad' = "" /\ B' = Put(B, Op[2], NoBuf)
BufOld ==      \* bold B: the one scanner stored, in the form the previous version saved it in
  /\ Is("bold") /\ Next1 /\ UNCHANGED <<F, S, T>> /\ bad' = ""
  /\ LET b == BV(Op[2]) IN B' = Put(B, Op[2], [b EXCEPT !.e = << <<b.e[1][1], V>> >>])
BufCopy  == Is("bcopy") /\ Next1 /\ UNCHANGED <<F, S, T>> /\ bad' = "" /\ B' = Put(B, Op[2], BV(Op[3]))
BufRewind == Is("brewind") /\ Next1 /\ UNCHANGED <<F, S, T>> /\ bad' = "" /\ B' = Put(B, Op[2], [BV(Op[2]) EXCEPT !.i = 1])
BufSpoil == \* bxor B offset mask (in the header of the first scanner), btrunc B n (anywhere), bwrite (foreign bytes)
  /\ (Is("bxor") \/ Is("btrunc") \/ Is("bwrite")) /\ Next1 /\ UNCHANGED <<F, S, T>> /\ bad' = ""
  /\ B' = Put(B, Op[2], [BV(Op[2]) EXCEPT !.ok = FALSE])
BufSize ==     \* bsize B: the total of what was written
  /\ Is("bsize") /\ Next1 /\ UNCHANGED <<F, S, T, B>>
  /\ LET b == BV(Op[2])
         RECURSIVE Sum(_)
         Sum(i) == IF i > Len(b.e) THEN 0 ELSE b.e[i][2] + Sum(i + 1)
     IN Check(b.ok => V = Sum(1), "bytes written")
BufSame ==     \* bsame A B: equal values give equal bytes (only asked for copies and re-saves)
  /\ Is("bsame") /\ Next1 /\ UNCHANGED <<F, S, T, B>> /\ Check(V = 1, "saving again gave other bytes")
Truncations == \* trunctest S type B step = accepted truncations
  /\ Is("trunctest") /\ Next1 /\ UNCHANGED <<F, S, T, B>> /\ Check(E.k = "ok" /\ V = <<>>, "truncated data was accepted")

---------------------------------------------------------------------------
(* Running.  An item is <<"B">>, <<"E">> or <<kind, alignment, bytes>>. *)
StepChain(a, v, x) == IF v[6] = "none" THEN x ELSE ChainStep(a, x, v[3], v[4], v[5])
Letters(item) == IF item[1] = "B" THEN <<BeginMark>> ELSE IF item[1] = "E" THEN <<EndMark>> ELSE item[3]

ObsOk(sp, o) == (o.f = 1) = Final(sp) /\ Elems(o.a) = AcceptedBy(sp)

\* follow a table (a dump of the same scanner obtained by single steps) from state st
Walk(d, w, st0) == FoldLeft(LAMBDA st, c : d.t[st][ClassOfLetter(d.bp, c)], st0, w)

RECURSIVE RunOk(_, _, _, _, _, _, _)
RunOk(items, obs, i, sp, lang, d, st) ==    \* obs[i] is the observation before item i
  LET o == obs[i]
      dead == o.d = 1
  IN /\ lang => ObsOk(sp, o)
     /\ d # <<>> => o.k = d[1].keys[st] /\ o.f = d[1].f[st] /\ o.d = d[1].d[st] /\ o.a = d[1].acc[st]
     /\ IF i > Len(items) THEN Len(obs) = i
        ELSE LET w == Letters(items[i])
                 sp2 == IF lang THEN RunAll(w, sp) ELSE sp
                 st2 == IF d # <<>> THEN Walk(d[1], w, st) ELSE st
             IN (dead => obs[i + 1].d = 1 /\ obs[i + 1].f = 0) /\ RunOk(items, obs, i + 1, sp2, lang, d, st2)

\* counters: V[i].r are the totals so far
AddUp(xs, ys) == [i \in 1..Len(xs) |-> xs[i] + ys[i]]
RECURSIVE CountsOk(_, _, _, _, _, _)
CountsOk(items, obs, i, at, n, d) ==    \* at: state of the table d, or the components; n: the counters
  LET o == obs[i]
      step(acc, c) == IF d # <<>> THEN LET x == d[1].t[acc[1]][ClassOfLetter(d[1].bp, c)] IN <<x, TLCEval(AddUp(acc[2], d[1].em[x]))>>
                      ELSE LET x == StepAll(c, acc[1]) IN <<x, TLCEval(AddUp(acc[2], Counts(x)))>>
  IN /\ o.r = n
     /\ (o.f = 1) = (IF d # <<>> THEN d[1].f[at] = 1 ELSE Final(at))
     /\ Elems(o.a) = {j \in 1..Len(n) : n[j] > 0}
     /\ IF i > Len(items) THEN Len(obs) = i
        ELSE LET z == FoldLeft(step, <<at, n>>, Letters(items[i])) IN CountsOk(items, obs, i + 1, z[1], z[2], d)
\* captures: the slow scanner is asked after every piece of the text, the fast one when it has been read between the marks
Joined(items, n) == FoldLeft(LAMBDA acc, i : IF items[i][1] \in {"B", "E"} THEN acc ELSE acc \o items[i][3], <<>>, [i \in 1..n |-> i])
CapturesOk(t, items, obs, v) ==
  /\ Len(obs) = Len(items) + 1
  /\ IF t = "KS"
     THEN \A i \in 1..Len(obs) : LET c == Span(v[4], Joined(items, i - 1), v[3]) IN (obs[i].f = 1) = (c # <<>>) /\ (c # <<>> => obs[i].r = c)
     ELSE Len(items) > 1 /\ items[1][1] = "B" /\ items[Len(items)][1] = "E" =>
          LET c == Span(v[4], Joined(items, Len(items)), v[3])
              o == obs[Len(obs)]
          IN (o.f = 1) = (c # <<>>) /\ o.r = [i \in 1..Len(c) |-> c[i] + 1]
\* counts of chains along the way
ChainRunOk(items, obs, cs) ==
  LET n == Len(items)
      step(acc, i) ==    \* <<fine, chains>>
        LET w == Letters(items[i])
            x == TLCEval([j \in 1..Len(cs) |-> FoldLeft(LAMBDA y, a : StepChain(a, cs[j], y), acc[2][j], w)])
        IN <<acc[1] /\ \A j \in 1..Len(cs) : IF items[i][1] = "E" THEN CountFits(cs[j], x[j], obs[i + 1].r[j]) ELSE CountsSoFar(cs[j], x[j], obs[i + 1].r[j]), x>>
  IN /\ Len(obs) = n + 1 /\ \A i \in 1..Len(obs) : Len(obs[i].r) = Len(cs)
     /\ FoldLeft(step, <<\A j \in 1..Len(cs) : obs[1].r[j] = 0, [j \in 1..Len(cs) |-> ChainInit]>>, [i \in 1..n |-> i])[1]
\* runs of equal scanners over the same letters, however divided, end alike
Ran == Get(F, "ran", <<>>)
AllLetters(items) == FoldLeft(LAMBDA acc, x : acc \o Letters(x), <<>>, items)
Repeats(s) == s.known /\ s.t \in CountKinds \cup {"K", "KS"}
LikeBefore(s, w) == \A i \in 1..Len(Ran) : Ran[i][1] = s.cs /\ Ran[i][2] = w => V[Len(V)].r = Ran[i][3]
RunAct ==
  LET s == SV(Op[2])
      items == SubSeq(Op, 3, Len(Op))
      tab == IF Op[2] \in DOMAIN T THEN <<Ev[T[Op[2]]].v>> ELSE <<>>
  IN ~s.known \/ (E.k = "ok" /\ (IF s.t \in {"K", "KS"} THEN IF s.cs = <<>> THEN \A i \in 1..Len(V) : V[i].f = 0 ELSE CapturesOk(s.t, items, V, s.cs[1])
                                  ELSE IF s.t \in CountKinds THEN ChainRunOk(items, V, s.cs)
                                  ELSE IF s.t \in HalfKinds
                                  THEN IF tab = <<>> THEN CountsOk(items, V, 1, s.cs, Counts(s.cs), tab) ELSE CountsOk(items, V, 1, 1, tab[1].em[1], tab)
                                  ELSE RunOk(items, V, 1, s.cs, tab = <<>>, tab, 1)))
Run ==         \* srun S items...: checked against the languages, or the table if one was dumped
  /\ Is("srun") /\ Next1 /\ UNCHANGED <<S, T, B>>
  /\ LET s == SV(Op[2])
         w == AllLetters(SubSeq(Op, 3, Len(Op)))
     IN /\ Check(RunAct /\ (Repeats(s) => LikeBefore(s, w)), "result of running over a text")
        /\ F' = IF Repeats(s) /\ E.k = "ok" THEN Put(F, "ran", Append(Ran, <<s.cs, w, V[Len(V)].r>>)) ELSE F

\* <<shortest, longest accepted prefix of w (-1: none), verdict on w followed by the mark last>>
Prefs(w, last, sp0) ==
  LET st(acc, c) ==
        LET sp == StepAll(c, acc[1])
            f == Final(sp)
            i == acc[2] + 1
        IN <<sp, i, IF f /\ acc[3] = -1 THEN i ELSE acc[3], IF f THEN i ELSE acc[4]>>
      f0 == Final(sp0)
      r == FoldLeft(st, <<sp0, 0, IF f0 THEN 0 ELSE -1, IF f0 THEN 0 ELSE -1>>, w)
  IN <<r[3], r[4], Final(StepAll(last, r[1]))>>
PrefsT(d, w, last, st0) ==      \* the same on a table
  LET st(acc, c) ==
        LET x == d.t[acc[1]][ClassOfLetter(d.bp, c)]
            f == d.f[x] = 1
            i == acc[2] + 1
        IN <<x, i, IF f /\ acc[3] = -1 THEN i ELSE acc[3], IF f THEN i ELSE acc[4]>>
      f0 == d.f[st0] = 1
      r == FoldLeft(st, <<st0, 0, IF f0 THEN 0 ELSE -1, IF f0 THEN 0 ELSE -1>>, w)
  IN <<r[3], r[4], d.f[Walk(d, <<last>>, r[1])] = 1>>
Rev1(w) == [i \in 1..Len(w) |-> w[Len(w) + 1 - i]]

\* positions under the marks: the first mark precedes position 0, the second one stays at position n
Found(v, n, m2, longest) ==
  IF longest THEN (IF m2 /\ v[3] THEN n ELSE v[2]) ELSE (IF v[1] >= 0 THEN v[1] ELSE IF m2 /\ v[3] THEN n ELSE -1)

FindOk ==
  LET s == SV(Op[2])
         w == Op[4]
         n == Len(w)
         tab == IF Op[2] \in DOMAIN T THEN <<Ev[T[Op[2]]].v>> ELSE <<>>
         vs == TLCEval([back \in BOOLEAN, m1 \in BOOLEAN |->
                 LET first == IF back THEN EndMark ELSE BeginMark
                     last == IF back THEN BeginMark ELSE EndMark
                     text == IF back THEN Rev1(w) ELSE w
                 IN IF tab # <<>> THEN PrefsT(tab[1], text, last, IF m1 THEN Walk(tab[1], <<first>>, 1) ELSE 1)
                    ELSE Prefs(text, last, IF m1 THEN StepAll(first, s.cs) ELSE s.cs)])
         x(q, m) == Found(vs[q >= 3, m % 2 = 1], n, m >= 2, q \in {1, 3})
  IN ~s.known \/ (E.k = "ok" /\ \A q \in 1..4 : \A m \in 0..3 : V[(q - 1) * 4 + m + 1] = x(q, m))
FindAll ==     \* sfindall S align text: lp, sp, ls, ss, each without marks, with the first, the second, both
  /\ Is("sfindall") /\ Next1 /\ UNCHANGED <<F, S, T, B>>
  /\ Check(FindOk, "prefix or suffix search")
MatchOk ==
  LET s == SV(Op[2])
      w == IF Op[3] \in {"m", "r"} THEN Op[4] ELSE <<BeginMark>> \o Op[4] \o <<EndMark>>
      f == IF Op[2] \in DOMAIN T THEN Ev[T[Op[2]]].v.f[Walk(Ev[T[Op[2]]].v, w, 1)] = 1 ELSE Final(RunAll(w, s.cs))
  IN ~s.known \/ (E.k = "ok" /\ (V = 1) = (IF Op[3] = "nrbe" THEN ~(~f) ELSE f))
MatchAct ==    \* smatch S how text
  /\ Is("smatch") /\ Next1 /\ UNCHANGED <<F, S, T, B>> /\ Check(MatchOk, "matching helper")

\* alone: the state of each scanner as its table, or a run of its own just before over the same items, has it
Alone(r, items, i) == Ev[i].op = <<"srun", r>> \o items /\ Ev[i].k = "ok"
PairOk ==
  LET items == SubSeq(Op, 4, Len(Op))
      tab(r) == IF r \in DOMAIN T THEN <<Ev[T[r]].v>> ELSE <<>>
      run(r) == IF r \in DOMAIN T THEN <<>> ELSE LET k == {k \in {pos - 1, pos - 2} : k > 0 /\ Alone(r, items, k)} IN IF k = {} THEN <<>> ELSE <<Ev[CHOOSE x \in k : TRUE].v>>
      \* o: its key, verdict, deadness and counters
      Fits(d, obs, i, st, k, f, dead, res) ==
        /\ d # <<>> => k = d[1].keys[st] /\ f = d[1].f[st] /\ dead = d[1].d[st]
        /\ obs # <<>> => k = obs[1][i].k /\ f = obs[1][i].f /\ dead = obs[1][i].d /\ ("r" \in DOMAIN obs[1][i] => res = obs[1][i].r)
      ta == tab(Op[2])  tb == tab(Op[3])  ra == run(Op[2])  rb == run(Op[3])
      RECURSIVE Ok(_, _, _)
      Ok(i, x, y) ==
        LET o == V[i]
        IN /\ Fits(ta, ra, i, x, o[1], o[5], o[7], o[9]) /\ Fits(tb, rb, i, y, o[2], o[6], o[8], o[10])
           /\ (o[3] = 1) = (o[5] = 1 \/ o[6] = 1)
           /\ (o[4] = 1) = (o[7] = 1 /\ o[8] = 1)
           /\ IF i > Len(items) THEN Len(V) = i
              ELSE LET w == Letters(items[i]) IN Ok(i + 1, IF ta = <<>> THEN x ELSE Walk(ta[1], w, x), IF tb = <<>> THEN y ELSE Walk(tb[1], w, y))
  IN E.k = "ok" /\ Ok(1, 1, 1)
PairAct ==     \* spair A B items...: observations <<key, key, final, dead, final, final, dead, dead, counters, counters>>
  /\ Is("spair") /\ Next1 /\ UNCHANGED <<F, S, T, B>> /\ Check(PairOk, "two scanners run together")

---------------------------------------------------------------------------
(* Counts.  scountall S letters n: for all texts w of up to n letters, the   *)
(* shorter first, <<counts after the begin mark and w, counts after the end  *)
(* mark as well>>.  All of them are compared with the chains by exploration; *)
(* and whatever the separators, components of equal name count alike.        *)
RECURSIVE Geo(_, _)
Geo(k, n) == IF n = 0 THEN 1 ELSE 1 + k * Geo(k, n - 1)
Counted == Get(F, "counted", <<>>)          \* earlier <<event, components>>
Alike(p, cs) ==                              \* with those of the event p
  \A i \in 1..Len(cs) : \A j \in 1..Len(p[2]) :
     (cs[i][7] = p[2][j][7] /\ SubSeq(Op, 3, 4) = SubSeq(Ev[p[1]].op, 3, 4))
        => \A x \in 1..Len(V) : V[x][1][i] = Ev[p[1]].v[x][1][j] /\ V[x][2][i] = Ev[p[1]].v[x][2][j]
CountAll ==
  /\ Is("scountall") /\ UNCHANGED <<tid, word>>
  /\ LET cs == SV(Op[2]).cs
     IN IF ~SV(Op[2]).known THEN Next1 /\ bad' = "" /\ UNCHANGED <<F, S, B, T>>
        ELSE IF E.k # "ok" \/ Len(V) # Geo(Len(Op[3]), Op[4]) \/ \E x \in 1..Len(V) : Len(V[x][1]) # Len(cs) \/ Len(V[x][2]) # Len(cs)
        THEN Next1 /\ bad' = "counting failed" /\ UNCHANGED <<F, S, B, T>>
        ELSE \/ /\ Next1 /\ UNCHANGED <<S, B, T>>
                /\ Check(\A i \in 1..Len(Counted) : Alike(Counted[i], cs), "a regexp counted differently in another scanner")
                /\ F' = Put(F, "counted", Append(Counted, <<pos, cs>>))
             \/ /\ phase' = "counts" /\ F' = <<>> /\ S' = <<>> /\ B' = <<>> /\ T' = <<>> /\ UNCHANGED <<pos, bad>>
                /\ \E x \in {[i \in 1..Len(cs) |-> ChainOf(cs[i], <<BeginMark>>)]} : ex' = [at |-> 1, len |-> 0, cs |-> cs, x |-> x]
CountMore ==
  /\ phase = "counts" /\ ex.len < Op[4] /\ UNCHANGED <<tid, pos, phase, F, S, B, T, bad>>
  /\ \E j \in 1..Len(Op[3]) : \E x \in {[i \in 1..Len(ex.cs) |-> StepChain(Op[3][j], ex.cs[i], ex.x[i])]} :
       ex' = [ex EXCEPT !.at = (ex.at - 1) * Len(Op[3]) + j + 1, !.len = ex.len + 1, !.x = x] /\ word' = Append(word, Op[3][j])
CountSome ==   \* scounts S texts: counts after each text between the marks
  /\ Is("scounts") /\ Next1 /\ UNCHANGED <<F, S, B, T>>
  /\ LET cs == SV(Op[2]).cs
     IN Check(~SV(Op[2]).known \/ (E.k = "ok" /\ \A x \in 1..Len(V) : Len(V[x]) = Len(cs) /\ \A i \in 1..Len(cs) :
               CountFits(cs[i], ChainOf(cs[i], <<BeginMark>> \o Op[x + 2] \o <<EndMark>>), V[x][i])), "number of matches in a chain")

---------------------------------------------------------------------------
(* The one-line interface: easy R opts bytes (also easyopt, and easyc R bytes *)
(* without options); easymatch R texts...                                    *)
EasyNew ==
  /\ (Is("easy") \/ Is("easyopt") \/ Is("easyc")) /\ Next1 /\ UNCHANGED <<F, B, T>>
  /\ \E p \in {IF Op[1] = "easyc" THEN PatternOf({}, Op[3]) ELSE PatternOf(Elems(Op[3]), Op[4])} :
        /\ Check(E.k = (IF p[1] THEN "ok" ELSE "err"), "verdict on a pattern given to the one-line interface")
        /\ IF p[1] THEN S' = Put(S, "easy " \o Op[2], Scanner("easy", <<Surrounded(p[2])>>)) ELSE UNCHANGED S
EasyReg(r) == "easy " \o r
EasyScan == Is("easyscan") /\ Next1 /\ UNCHANGED <<F, B, T>> /\ Check(E.k = "ok", "expression made of a scanner")
            /\ S' = Put(S, EasyReg(Op[2]), Scanner("easy", S[Op[3]].cs))
EasyCopy == (Is("easycopy") \/ Is("easyassign")) /\ Next1 /\ UNCHANGED <<F, B, T>> /\ Check(E.k = "ok", "copy of an expression")
            /\ S' = Put(S, EasyReg(Op[2]), S[EasyReg(Op[3])])
EasySwap == Is("easyswap") /\ Next1 /\ UNCHANGED <<F, B, T>> /\ Check(E.k = "ok", "swap of expressions")
            /\ S' = Put(Put(S, EasyReg(Op[2]), S[EasyReg(Op[3])]), EasyReg(Op[3]), S[EasyReg(Op[2])])
EasyDel == Is("easydel") /\ Next1 /\ UNCHANGED <<F, B, T>> /\ Check(E.k = "ok", "destruction of an expression") /\ S' = Drop(S, {EasyReg(Op[2])})
EasyOk ==
  E.k = "ok" /\ Len(V) = Len(Op) - 2
  /\ \A i \in 1..Len(V) : (V[i] = 1) = Final(RunAll(<<BeginMark>> \o Op[i + 2] \o <<EndMark>>, S["easy " \o Op[2]].cs)) /\ V[i] \in {0, 1}
EasyMatch == Is("easymatch") /\ Next1 /\ UNCHANGED <<F, S, B, T>> /\ Check(("easy " \o Op[2]) \in DOMAIN S => EasyOk, "verdict of the one-line interface")

---------------------------------------------------------------------------
(* The generator tool: inline mode R source = [t: texts passed through, l:   *)
(* line numbers that follow the scanners], which become R1, R2...            *)
InlineAct ==
  /\ Is("inline") /\ Next1 /\ UNCHANGED <<F, B>>
  /\ \E x \in {InlineOf(Op[4])} :
        /\ Check(IF ~x[1] THEN E.k = "err" ELSE E.k = "ok" /\ V.t = x[2] /\ V.l = x[4],
                 IF ~x[1] THEN "the generator tool did not refuse a malformed source" ELSE "the generator tool did not pass the source through")
        /\ LET R == IF x[1] THEN {Op[3] \o ToString(k) : k \in DOMAIN x[3]} ELSE {}
               n(r) == CHOOSE k \in DOMAIN x[3] : r = Op[3] \o ToString(k)
           IN S' = [r \in R |-> Scanner("S", x[3][n(r)])] @@ S /\ T' = Drop(T, R)

---------------------------------------------------------------------------
(* Tables: an automaton (nondeterministic) or a scanner (deterministic).     *)
(* Op[3] is a list of flags: "u8" explore well-formed UTF-8 only, "det" the  *)
(* automaton must be deterministic, "min" it must be minimal, "dead" every   *)
(* state without a way to a final one must be reported dead, "nolang" do not *)
(* compare with the abstract value (the table is used by later events).      *)
Flags == Elems(Op[3])
Table == V
NfaClose(d, X) ==
  LET RECURSIVE Cl(_, _)
      Cl(todo, seen) == IF todo = {} THEN seen
                        ELSE LET n == (UNION {Elems(d.e[s]) : s \in todo}) \ seen IN Cl(n, seen \cup n)
  IN Cl(X, X)

Utf8Cuts == {128, 144, 160, 192, 194, 224, 225, 237, 238, 240, 241, 244, 245, 248}
\* one letter for every combination of table class and sets of the languages
Reps(d, sp, u8) ==
  LET sets == UNION {CompSets(sp[i]) : i \in 1..Len(sp)}
      cs == (Cuts(sets) \cup {d.bp[i][1] : i \in 1..Len(d.bp)} \cup (IF u8 THEN Utf8Cuts ELSE {})) \ {256, 257}
      sg == TLCEval([c \in cs |-> <<ClassOfLetter(d.bp, c), {X \in sets : In(c, X)}, IF u8 THEN Cardinality({x \in Utf8Cuts : x <= c}) ELSE 0>>])
  IN {<<c, sg[c][1]>> : c \in {x \in cs : ~\E b \in cs : b < x /\ sg[b] = sg[x]}}

Distinguishable(d) ==    \* number of classes of equivalent states of a complete deterministic automaton
  LET St == 1..d.n
      Cl == 1..Len(d.t[1])
      RECURSIVE Refine(_, _)
      Refine(part, n) ==    \* part: state -> class
        LET sg == TLCEval([s \in St |-> <<part[s], [c \in Cl |-> part[d.t[s][c][1]]]>>])
            rep == TLCEval([s \in St |-> CHOOSE x \in St : sg[x] = sg[s] /\ \A y \in St : y < x => sg[y] # sg[s]])
            m == Cardinality({rep[s] : s \in St})
        IN IF m = n THEN n ELSE Refine(rep, m)
      fin == Elems(d.f)
      p0 == TLCEval([s \in St |-> IF s \in fin THEN 1 ELSE 2])
  IN Refine(p0, Cardinality({p0[s] : s \in St}))
RECURSIVE ReachTab(_, _, _)
ReachTab(d, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET n == UNION {UNION {Elems(d.t[s][c]) : c \in 1..Len(d.t[s])} \cup Elems(d.e[s]) : s \in todo} \ seen
       IN ReachTab(d, n, seen \cup n)
Deterministic(d) == \A s \in 1..d.n : Len(d.e[s]) = 0 /\ \A c \in 1..Len(d.t[s]) : Len(d.t[s][c]) = 1

RECURSIVE CanFinish(_, _)
CanFinish(d, seen) ==
  LET n == {s \in 1..d.n : \E c \in 1..Len(d.t[s]) : d.t[s][c] \in seen} \ seen
  IN IF n = {} THEN seen ELSE CanFinish(d, seen \cup n)

\* number of subset states of an automaton, counted up to lim
SubsetCount(d, lim) ==
  LET RECURSIVE Go(_, _)
      Go(todo, seen) ==
        IF todo = {} \/ Cardinality(seen) > lim THEN Cardinality(seen)
        ELSE LET n == {NfaClose(d, UNION {Elems(d.t[s][c]) : s \in X}) : X \in todo, c \in 1..Len(d.t[1])} \ seen
             IN Go(n, seen \cup n)
      X0 == NfaClose(d, {d.i})
  IN Go({X0}, {X0})

FsmFlagsOk ==
  /\ "limit" \in Flags =>    \* after a determination with the limit Op[4] of the automaton dumped before it
       IF Ev[pos - 1].k = "ok" /\ Ev[pos - 1].v # 0
       THEN Table.det = 1 /\ Deterministic(Table) /\ (Table.n <= Op[4] + 1 \/ Ev[pos - 2].v.det = 1)
       ELSE SubsetCount(Table, Op[4] + 1) > Op[4]
  /\ "det" \in Flags => Deterministic(Table)
  /\ "min" \in Flags => /\ Deterministic(Table)
                        /\ ReachTab(Table, {Table.i}, {Table.i}) = 1..Table.n
                        /\ Distinguishable(Table) = Table.n
ScanFlagsOk ==
  "dead" \in Flags => LET live == CanFinish(Table, {s \in 1..Table.n : Table.f[s] = 1})
                      IN \A s \in 1..Table.n : (Table.d[s] = 1) = (s \notin live)

FsmDump ==
  /\ Is("fdump") /\ UNCHANGED <<tid, word>>
  /\ IF E.k # "ok" THEN Check(FALSE, "dump failed") /\ Next1 /\ UNCHANGED <<F, S, B, T>>
     ELSE \/ Next1 /\ UNCHANGED <<F, S, B, T>> /\ Check(FsmFlagsOk, "automaton not deterministic or not minimal")
          \/ /\ "nolang" \notin Flags
             /\ phase' = "explore" /\ F' = <<>> /\ S' = <<>> /\ B' = <<>> /\ T' = <<>> /\ UNCHANGED <<pos, bad>>
             /\ \E sp \in {<<FsmVal(F, Op[2])>>} :
                   ex' = [sp |-> sp, at |-> NfaClose(Table, {Table.i}), ls |-> Reps(Table, sp, "u8" \in Flags),
                          u |-> IF "u8" \in Flags THEN Utf8Text ELSE Top, dead |-> FALSE, nfa |-> TRUE]
ScanDump ==
  /\ Is("sdump") /\ UNCHANGED <<tid, word>>
  /\ IF E.k # "ok" THEN Check(FALSE, "dump failed") /\ Next1 /\ UNCHANGED <<F, S, B, T>>
     ELSE \/ /\ Next1 /\ UNCHANGED <<F, S, B>> /\ T' = Put(T, Op[2], pos)
             /\ Check(ScanFlagsOk, "dead states are not exactly those that cannot become final")
          \/ /\ "nolang" \notin Flags /\ SV(Op[2]).known
             /\ phase' = "explore" /\ F' = <<>> /\ S' = <<>> /\ B' = <<>> /\ T' = <<>> /\ UNCHANGED <<pos, bad>>
             /\ \E sp \in {SV(Op[2]).cs} :
                   ex' = [sp |-> sp, at |-> 1, ls |-> Reps(Table, sp, "u8" \in Flags),
                          u |-> IF "u8" \in Flags THEN Utf8Text ELSE Top, dead |-> FALSE, nfa |-> FALSE]

ExNext(l) ==
  [ex EXCEPT !.sp = StepAll(l[1], ex.sp),
             !.u = IF ex.u = Top THEN Top ELSE Utf8Next(ex.u, l[1]),
             !.at = IF ex.nfa THEN NfaClose(Table, UNION {Elems(Table.t[s][l[2]]) : s \in ex.at})
                    ELSE Table.t[ex.at][l[2]],
             !.dead = ex.dead \/ (~ex.nfa /\ Table.d[ex.at] = 1)]
Explore ==
  /\ phase = "explore" /\ UNCHANGED <<tid, pos, phase, F, S, B, T, bad>>
  /\ \E l \in ex.ls : \E nx \in {ExNext(l)} :
       nx.u # None /\ ex' = nx /\ word' = Append(word, l[1])

---------------------------------------------------------------------------
Matched == {"scap", "fparse", "fparseb", "lexnew", "lexparse", "decode", "decodeall", "codes", "encode", "f", "scompile", "scompilein", "shalf", "sempty",
            "sglue", "cycles", "sconv", "scopy", "sassign", "sswap", "sstdswap", "smove", "smoveassign", "sdel", "sinfo",
            "ssave", "sload", "smmap", "smmapmis", "bclear", "bcopy", "brewind", "bxor", "btrunc", "bwrite", "bsize",
            "bold", "bsame", "trunctest", "easy", "easyopt", "easyc", "easymatch", "easyscan", "easycopy", "easyassign", "easyswap", "easydel", "inline", "scount", "scountall", "scounts", "srun", "sfindall", "smatch", "spair", "fdump", "sdump"}
Unmatched ==   \* an event that no action explains
  /\ phase = "run" /\ bad = "" /\ pos <= Len(Ev) /\ Op[1] \notin Matched
  /\ bad' = "unexplained event" /\ UNCHANGED <<tid, pos, phase, F, S, B, T, ex, word>>

Done == (bad # "" \/ (phase = "run" /\ pos > Len(Ev)) \/ (phase = "counts" /\ ex.len = Op[4])) /\ UNCHANGED vars

Next == \/ ParseOp \/ ParseBytes \/ LexNew \/ LexParse \/ DecodeOp \/ DecodeMany \/ CodesAct \/ EncodeOp
        \/ FsmSwap \/ FsmAct
        \/ Compile \/ CompileIn \/ Half \/ EmptyScanner \/ GlueAct \/ CyclesAct \/ Convert \/ CopyAct \/ SwapAct \/ MoveAct \/ Destroy \/ Info
        \/ Save \/ Load \/ MmapMisaligned \/ BufOld \/ BufClear \/ BufCopy \/ BufRewind \/ BufSpoil \/ BufSize \/ BufSame \/ Truncations
        \/ CapNew \/ CountNew \/ CountAll \/ CountMore \/ CountSome \/ EasyNew \/ EasyScan \/ EasyCopy \/ EasySwap \/ EasyDel \/ EasyMatch \/ InlineAct
        \/ Run \/ FindAll \/ MatchAct \/ PairAct
        \/ FsmDump \/ ScanDump \/ Explore
        \/ Unmatched \/ Done

Spec == Init /\ [][Next]_vars

(* Invariants *)
Conforms == bad = ""
TableAgrees ==       \* whatever the text, the table's verdict is the one of the language
  phase = "explore" =>
    LET fin == Final(ex.sp)
    IN IF ex.nfa THEN (ex.at \cap Elems(Table.f) # {}) = fin
       ELSE /\ (Table.f[ex.at] = 1) = fin
            /\ Elems(Table.acc[ex.at]) = AcceptedBy(ex.sp)
            /\ "em" \in DOMAIN Table => Table.em[ex.at] = Counts(ex.sp) /\ Table.odd = <<0>>
DeadIsDead ==        \* a state reported dead is never left for a final one
  (phase = "explore" /\ (ex.dead \/ (~ex.nfa /\ Table.d[ex.at] = 1))) => ~Final(ex.sp)
CountsAgree ==       \* whatever the text, the counts are those of the longest chains
  phase = "counts" => \A i \in 1..Len(ex.cs) : /\ CountsSoFar(ex.cs[i], ex.x[i], V[ex.at][1][i])
                                              /\ CountFits(ex.cs[i], StepChain(EndMark, ex.cs[i], ex.x[i]), V[ex.at][2][i])
=============================================================================
