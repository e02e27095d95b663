---------------------------- MODULE FilterTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the real filters, any number of them interleaved.     *)
(*  new    build filter f of a kind                                        *)
(*  spoil  the caller overwrites the coefficient slices it passed in       *)
(*  block  samples in, outputs in units of 1/scale                         *)
(*  polar  PolarDiscriminator and PolarDiscriminator32 of one pair         *)
(*  design a biquad constructor's coefficients                             *)
(***************************************************************************)
EXTENDS Filters, Angle, TLC, Json, IOUtils
Trace  == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
VARIABLES l, flt
vars == <<l, flt>>
Init == l = 1 /\ flt = [i \in {} |-> 0]
Put(f, r) == [i \in DOMAIN flt \cup {f} |-> IF i = f THEN r ELSE flt[i]]

Pairs(s) == [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
Flat(p) == [i \in 1..(2 * Len(p)) |-> IF i % 2 = 1 THEN p[(i + 1) \div 2][1] ELSE p[i \div 2][2]]
Even(s) == [i \in 1..(Len(s) \div 2) |-> s[2 * i - 1]]
Odd(s)  == [i \in 1..(Len(s) \div 2) |-> s[2 * i]]
Newest(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

(* ---- new *)
Iir(k) == k \in {"iir", "ciir", "ciir32"}
Good(e) == Iir(e.kind) => Len(e.b) = Len(e.a) /\ Len(e.b) > 0
Fresh(e) ==
  CASE e.kind = "decim" -> [kind |-> e.kind, p |-> e.p, st |-> DecimInit]
    [] e.kind = "ratio" -> [kind |-> e.kind, p |-> e.p, st |-> RatioInit]
    [] e.kind = "fm" -> [kind |-> e.kind, p |-> <<>>, st |-> <<0, 0>>]
    [] e.kind \in {"rot", "irot"} -> [kind |-> e.kind, p |-> <<>>, st |-> 0]
    [] e.kind \in {"dc", "dc32"} ->
         [kind |-> e.kind, b |-> <<e.p[2], 0 - e.p[2]>>, a |-> <<e.p[2], 0 - e.p[1]>>, x |-> <<>>, y |-> <<>>, track |-> e.track]
    [] e.kind \in {"iir", "biquad"} -> [kind |-> e.kind, b |-> e.b, a |-> e.a, x |-> <<>>, y |-> <<>>, track |-> e.track]
    [] OTHER -> [kind |-> e.kind, b |-> e.b, a |-> e.a, x |-> <<<<>>, <<>>>>, y |-> <<<<>>, <<>>>>, track |-> e.track]
New(e) ==
  IF Good(e)
  THEN /\ e.panic = 0
       /\ (Iir(e.kind) => e.coef = <<e.b, e.a>>)          \* the caller's slices keep their values
       /\ flt' = Put(e.f, Fresh(e))
  ELSE /\ e.panic = 1                                       \* refused
       /\ UNCHANGED flt

(* ---- block *)
Whole(e, out) == e.exact = 1 /\ e.out = out
Decim(e, r) ==
  \E d \in {DecimBlock(r.p[1], r.st, Pairs(e.in))} :
    /\ Whole(e, Flat(d.out))
    /\ flt' = Put(e.f, [r EXCEPT !.st = [sum |-> d.sum, cnt |-> d.cnt]])
(* outputs are sum*slow/fast in units of 1/scale *)
Ratio(e, r) ==
  \E d \in {RatioBlock(r.p[1], r.p[2], r.st, e.in)} :
    /\ Len(e.out) = Len(d.out)
    /\ (\A i \in 1..Len(d.out) : M(e.out[i] * r.p[1] - d.out[i] * e.scale) <= r.p[1]) = TRUE
    /\ flt' = Put(e.f, [r EXCEPT !.st = [sum |-> d.sum, ph |-> d.ph]])
(* units of 2^-20; half a turn has either sign *)
NearAngle(a, b, p, tol) == \/ M(a - b) <= tol
                           \/ p[2] = 0 /\ p[1] < 0 /\ M(M(a) - M(b)) <= tol
FMAngle(a, p) == IF p = <<0, 0>> THEN a = 0 ELSE NearAngle(a, Atan2(p[2], p[1]) \div 256, p, 11534)      \* 0.011
FMOk(e, p) ==
  /\ e.n = Len(p) /\ Len(e.out) = Len(p) /\ Len(e.fa) = Len(p) /\ Len(e.bits) = Len(p)
  /\ \A i \in 1..Len(p) :
       /\ FMAngle(e.out[i], p[i])
       /\ e.fa[i][1] = p[i][2] /\ e.fa[i][2] = p[i][1]
       /\ e.bits[i] = <<e.fa[i][3], e.fa[i][4]>>
FM(e, r) ==
  \E in \in {Pairs(e.in)} :
    /\ FMOk(e, FMBlock(r.st, in)) = TRUE
    /\ flt' = Put(e.f, [r EXCEPT !.st = IF in = <<>> THEN r.st ELSE in[Len(in)]])
Rot(e, r) ==
  /\ Len(e.in) % 8 = 0
  /\ Whole(e, Flat(RotBlock(r.st, Pairs(e.in))))
  /\ flt' = Put(e.f, [r EXCEPT !.st = (r.st + Len(e.in) \div 2) % 4])
(* difference equations: every new output satisfies the equation with the   *)
(* recorded earlier outputs                                                 *)
Tol(e, r) ==
  IF e.exact = 1 /\ e.scale = 1 THEN 0
  ELSE Weight(r.a) * (IF r.kind \in {"dc32", "ciir32"} THEN 24 ELSE 1)
EqBlock(b, a, scale, x, y, k, tol) == \A n \in (k + 1)..Len(x) : Equation(b, a, scale, x, y, n, tol)
Keep(r) == Len(r.a)
(* tracked filters (a[1] = 1 or -1, integers): the specification solves the *)
(* equation itself; single precision outputs are its rounded solution       *)
Tracked(e, r, in, out, x0, y0) ==
  \E ys \in {SolveOn(r.b, r.a, x0, y0, in)} :
    /\ Len(out) = Len(in)
    /\ (\A i \in 1..Len(in) : out[i] = IF e.f32 = 1 THEN Round24(ys[Len(y0) + i]) ELSE ys[Len(y0) + i]) = TRUE
Solved(r, in, x0, y0) == Newest(SolveOn(r.b, r.a, x0, y0, in), Keep(r))
Real(e, r) ==
  IF r.track = 1
  THEN /\ Tracked(e, r, e.in, e.out, r.x, r.y)
       /\ flt' = Put(e.f, [r EXCEPT !.x = Newest(r.x \o e.in, Keep(r)), !.y = Solved(r, e.in, r.x, r.y)])
  ELSE
  /\ Len(e.out) = Len(e.in)
  /\ \E x \in {r.x \o e.in} : \E y \in {r.y \o e.out} :
       /\ EqBlock(r.b, r.a, e.scale, x, y, Len(r.x), Tol(e, r)) = TRUE
       /\ flt' = Put(e.f, [r EXCEPT !.x = Newest(x, Keep(r)), !.y = Newest(y, Keep(r))])
Cplx(e, r) ==
  IF r.track = 1
  THEN /\ Len(e.out) = Len(e.in)
       /\ Tracked(e, r, Even(e.in), Even(e.out), r.x[1], r.y[1])
       /\ Tracked(e, r, Odd(e.in), Odd(e.out), r.x[2], r.y[2])
       /\ flt' = Put(e.f, [r EXCEPT !.x = <<Newest(r.x[1] \o Even(e.in), Keep(r)), Newest(r.x[2] \o Odd(e.in), Keep(r))>>,
                                     !.y = <<Solved(r, Even(e.in), r.x[1], r.y[1]), Solved(r, Odd(e.in), r.x[2], r.y[2])>>])
  ELSE
  /\ Len(e.out) = Len(e.in)
  /\ \E x \in {<<r.x[1] \o Even(e.in), r.x[2] \o Odd(e.in)>>} :
     \E y \in {<<r.y[1] \o Even(e.out), r.y[2] \o Odd(e.out)>>} :
       /\ EqBlock(r.b, r.a, e.scale, x[1], y[1], Len(r.x[1]), Tol(e, r)) = TRUE
       /\ EqBlock(r.b, r.a, e.scale, x[2], y[2], Len(r.x[2]), Tol(e, r)) = TRUE
       /\ flt' = Put(e.f, [r EXCEPT !.x = <<Newest(x[1], Keep(r)), Newest(x[2], Keep(r))>>,
                                     !.y = <<Newest(y[1], Keep(r)), Newest(y[2], Keep(r))>>])
Block(e) ==
  /\ e.panic = 0 /\ e.bad = 0 /\ e.same = 1
  /\ (e.scale = 1 => e.exact = 1)
  /\ \E r \in {flt[e.f]} :
       CASE r.kind = "decim" -> Decim(e, r)
         [] r.kind = "ratio" -> Ratio(e, r)
         [] r.kind = "fm" -> FM(e, r)
         [] r.kind \in {"rot", "irot"} -> Rot(e, r)
         [] r.kind \in {"ciir", "ciir32"} -> Cplx(e, r)
         [] OTHER -> Real(e, r)

(* ---- retune: other coefficients, the same history *)
Retune(e) ==
  /\ e.panic = 0
  /\ flt[e.f].kind = "biquad"
  /\ flt' = Put(e.f, [flt[e.f] EXCEPT !.b = e.b, !.a = e.a])

(* ---- single pairs *)
Polar(e) ==
  LET p == CMul(<<e.in[1], e.in[2]>>, <<e.in[3], 0 - e.in[4]>>) IN
  /\ e.panic = 0 /\ e.bad = 0
  /\ (p # <<0, 0>> => LET a == Atan2(p[2], p[1]) \div 256 IN
       /\ NearAngle(e.out[1], a, p, 4))
  /\ FMAngle(e.ang[1], p)
  /\ e.fa[1][1] = p[2] /\ e.fa[1][2] = p[1]
  /\ e.bits[1] = <<e.fa[1][3], e.fa[1][4]>>

(* ---- designs: p = <<cos, sin, hypotenuse>> *)
DesignLine(e) ==
  /\ e.panic = 0 /\ e.bad = 0 /\ e.n = 1
  /\ M(e.turn - (Atan2(e.p[2], e.p[1]) \div 4)) <= 32     \* the frequency of the request
  /\ (e.fn \in {"LowShelf", "HighShelf"} => SlopeOk(e.q, e.gain))
  /\ DesignOk(e.fn, e.p[1], e.p[2], e.p[3], e.q, e.gain, e.out)

Step(e) ==
  CASE e.op = "new" -> New(e)
    [] e.op = "spoil" -> UNCHANGED flt
    [] e.op = "block" -> Block(e)
    [] e.op = "retune" -> Retune(e)
    [] e.op = "polar" -> (Polar(e) = TRUE) /\ UNCHANGED flt
    [] e.op = "design" -> (DesignLine(e) = TRUE) /\ UNCHANGED flt
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
