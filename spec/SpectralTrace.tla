--------------------------- MODULE SpectralTrace ----------------------------
(***************************************************************************)
(* Recorded calls of the real spectral filters, any number interleaved.    *)
(*  new / feed / reset / query   Goertzel filters                          *)
(*  snew / sblock                sliding DFT                               *)
(*  dnew / dfeed / table         DTMF detector                             *)
(***************************************************************************)
EXTENDS Spectral, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, flt
vars == <<l, flt>>
Init == l = 1 /\ flt = [i \in {} |-> 0]
Put(f, r) == [i \in DOMAIN flt \cup {f} |-> IF i = f THEN r ELSE flt[i]]
Pairs(s) == [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
Reals(s) == [i \in 1..Len(s) |-> <<s[i], 0>>]
Samples(kind, in) == IF kind \in {"cgoe", "sdft", "sdft32"} THEN Pairs(in) ELSE Reals(in)

(* ---- Goertzel *)
New(e) ==
  /\ e.panic = 0
  /\ \E tws \in {[i \in 1..Len(e.freqs) |-> Twiddles(Bin(e.n, e.freqs[i], e.fs), e.n, e.prec)]} :
       flt' = Put(e.f, [kind |-> e.kind, n |-> e.n, prec |-> e.prec, tws |-> tws, x |-> <<>>])
Feed(e) ==
  /\ e.panic = 0 /\ e.same = 1
  /\ \E r \in {flt[e.f]} : flt' = Put(e.f, [r EXCEPT !.x = r.x \o Samples(r.kind, e.in)])
Reset(e) == e.panic = 0 /\ flt' = Put(e.f, [flt[e.f] EXCEPT !.x = <<>>])
Near(a, b, t) == Abs(a - b) <= t
QueryOk(e, r) ==
  /\ e.bad = 0
  /\ Len(e.out) = 2 * Len(r.tws) /\ Len(e.mag) = Len(r.tws)
  /\ LET err == Size(r.x) + 2 IN
     \A i \in 1..Len(r.tws) :
       LET X == DFT(r.x, r.tws[i], r.n) IN
       /\ Near(e.out[2 * i - 1], X[1], err + (Abs(X[1]) \div 4194304))
       /\ Near(e.out[2 * i], X[2], err + (Abs(X[2]) \div 4194304))
       /\ Near(e.mag[i], Power(X), PowerTol(X, err))
(* outputs are constrained when a whole block was fed since the last reset *)
Query(e) ==
  /\ e.panic = 0
  /\ \E r \in {flt[e.f]} : IF Len(r.x) = r.n THEN QueryOk(e, r) = TRUE ELSE TRUE
  /\ UNCHANGED flt

(* ---- sliding DFT *)
SNew(e) ==
  /\ e.panic = 0
  /\ \E w \in {IF e.win = <<>> THEN <<e.wden>> ELSE e.win} :
     \E tw \in {WindowedTwiddles(e.k, e.n, w, e.prec)} :
       flt' = Put(e.f, [kind |-> e.kind, n |-> e.n, prec |-> e.prec, wden |-> e.wden, sw |-> SumAbs(w), tw |-> tw, x |-> ZeroPairs(e.n), steps |-> 0, top |-> 0])
STol(r, x, top, steps) ==
  Size(x) * r.sw + 2 * r.wden +
  (IF r.kind = "sdft32" THEN (steps * top * r.sw) \div Pow2[22 - r.prec] + r.wden ELSE 0)
SBlockOk(e, r, x, in, top) ==
  /\ e.bad = 0 /\ Len(e.out) = Len(e.in)
  /\ \A i \in 1..Len(in) :
       LET last == SubSeq(x, i + 1, i + r.n)
           X == DFT(last, r.tw, r.n)
           t == STol(r, last, top, r.steps + i)
       IN /\ Near(e.out[2 * i - 1] * r.wden, X[1], t)
          /\ Near(e.out[2 * i] * r.wden, X[2], t)
SBlock(e) ==
  /\ e.panic = 0
  /\ \E r \in {flt[e.f]} : \E in \in {Pairs(e.in)} : \E x \in {r.x \o in} :
     \E top \in {MaxN(r.top, FoldLeft(LAMBDA m, i : MaxN(m, Size(SubSeq(x, i + 1, i + r.n))), 0, Range0(Len(in))))} :
       /\ SBlockOk(e, r, x, in, top) = TRUE
       /\ flt' = Put(e.f, [r EXCEPT !.x = NewestOf(x, r.n), !.steps = r.steps + Len(in), !.top = top])

(* long windows: only the outputs at the positions e.at are recorded *)
At(e) == IF "at" \in DOMAIN e THEN e.at ELSE <<>>
SFewOk(e, r, x, top) ==
  /\ e.bad = 0 /\ Len(e.out) = 2 * Len(At(e))
  /\ \A j \in 1..Len(At(e)) :
       LET last == SubSeq(x, At(e)[j] + 1, At(e)[j] + r.n)
           X == DFT(last, r.tw, r.n)
           t == STol(r, last, top, r.steps + At(e)[j])
       IN /\ Near(e.out[2 * j - 1] * r.wden, X[1], t)
          /\ Near(e.out[2 * j] * r.wden, X[2], t)
SFew(e) ==
  /\ e.panic = 0
  /\ \E r \in {flt[e.f]} : \E in \in {Pairs(e.in)} : \E x \in {r.x \o in} :
     \E top \in {MaxN(r.top, Size(x))} :
       /\ SFewOk(e, r, x, top) = TRUE
       /\ flt' = Put(e.f, [r EXCEPT !.x = NewestOf(x, r.n), !.steps = r.steps + Len(in), !.top = top])

(* ---- DTMF *)
StdLow  == <<697, 770, 852, 941>>
StdHigh == <<1209, 1336, 1477, 1633>>
Keys    == <<49, 50, 51, 65, 52, 53, 54, 66, 55, 56, 57, 67, 42, 48, 35, 68>>     \* 123A456B789C*0#D
Weights(e) ==
  IF e.kind = "rect" THEN [i \in 1..e.n |-> 16384]
  ELSE IF e.kind = "own" THEN [i \in 1..e.n |-> e.win[i] * 1024]                   \* sixteenths
  ELSE [i \in 1..e.n |-> Down28(Window("Hamming", e.n, i - 1), 14)]                \* standard, nil, hamming
DNew(e) ==
  /\ e.panic = 0
  /\ \E lo \in {IF e.kind = "std" THEN StdLow ELSE e.low} : \E hi \in {IF e.kind = "std" THEN StdHigh ELSE e.high} :
     \E w \in {Weights(e)} :
       flt' = Put(e.f, [kind |-> "dtmf", n |-> e.n,
                        lo |-> [i \in 1..Len(lo) |-> ToneCoeffs(lo[i], e.fs, e.n, w)],
                        hi |-> [i \in 1..Len(hi) |-> ToneCoeffs(hi[i], e.fs, e.n, w)]])
DFeedOk(e, r) ==
  LET x == Reals(IF Len(e.in) > r.n THEN SubSeq(e.in, 1, r.n) ELSE e.in)
      err == 2 * Size(x) + 2
      Xl == [i \in 1..Len(r.lo) |-> DFT(x, r.lo[i], r.n)]
      Xh == [i \in 1..Len(r.hi) |-> DFT(x, r.hi[i], r.n)]
      pl == [i \in 1..Len(r.lo) |-> Power(Xl[i])]
      ph == [i \in 1..Len(r.hi) |-> Power(Xh[i])]
      ml == ArgMaxVal(pl)
      mh == ArgMaxVal(ph)
      row == (e.key \div Len(r.hi)) + 1
      col == (e.key % Len(r.hi)) + 1
      tl == PowerTol(Xl[row], err)
      th == PowerTol(Xh[col], err)
  IN /\ e.key >= 0 /\ row <= Len(r.lo)
     /\ (Size(x) = 0 => e.mag = <<0>>)
     /\ pl[row] + 2 * tl >= ml
     /\ ph[col] + 2 * th >= mh
     /\ (Len(e.tone) = 2 => e.key = e.tone[1] * Len(r.hi) + e.tone[2])    \* the tones that were sent
     /\ Near(e.mag[1], IF ml < mh THEN ml ELSE mh, 2 * MaxN(tl, th))
DFeed(e) ==
  /\ e.panic = 0 /\ e.bad = 0 /\ e.same = 1
  /\ (DFeedOk(e, flt[e.f])) = TRUE
  /\ UNCHANGED flt
Table(e) == e.panic = 0 /\ e.low = StdLow /\ e.high = StdHigh /\ e.out = Keys /\ UNCHANGED flt

Step(e) ==
  CASE e.op = "new" -> New(e)
    [] e.op = "feed" -> Feed(e)
    [] e.op = "reset" -> Reset(e)
    [] e.op = "query" -> Query(e)
    [] e.op = "snew" -> SNew(e)
    [] e.op = "sblock" -> SBlock(e)
    [] e.op = "sfew" -> SFew(e)
    [] e.op = "dnew" -> DNew(e)
    [] e.op = "dfeed" -> DFeed(e)
    [] e.op = "table" -> Table(e)
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
