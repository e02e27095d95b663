---------------------------- MODULE NumericTrace ----------------------------
(***************************************************************************)
(* Recorded results of the interpolators, windows and arctangents.         *)
(***************************************************************************)
EXTENDS Interp, Arctan, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Init == l = 1
Near(a, b, t) == Mag(a - b) <= t
WFour == Weights(Four)
WSix == Weights(Six)

(* ---- interpolation; outputs in units of 2^-20 *)
(* kind: lin lin32 her her32 four four32 six six32 *)
InterpAt(kind, s, i, f) ==
  CASE kind \in {"lin", "lin32"} -> LinearAt(s, i, f) * 65536
    [] kind \in {"her", "her32"} -> HermiteAt(s, i, f) * 128
    [] kind \in {"four", "four32"} -> OptimalAt(Four, WFour, s, i, f) \div 16
    [] kind \in {"six", "six32"} -> OptimalAt(Six, WSix, s, i, f) \div 16
Wide(kind) == kind \in {"lin32", "her32", "four32", "six32"}
(* x: <<i, f>> position i + f/16; far positions <<"huge">> are zero for x >= 0 *)
InterpLine(e) ==
  /\ e.panic = 0 /\ e.bad = 0 /\ e.same = 1
  /\ Len(e.out) = Len(e.xs) /\ Len(e.out32) = Len(e.xs)
  /\ \A k \in 1..Len(e.xs) : Near(e.out[k], e.out32[k], 56)        \* the variant of the other precision
  /\ \A k \in 1..Len(e.xs) :
       LET i == e.xs[k][1]  f == e.xs[k][2] IN
       IF i < 0
       THEN (e.kind \in {"lin", "lin32"} \/ (f = 0 /\ e.kind \in {"her", "her32"})) => e.out[k] = 0
       ELSE Near(e.out[k], InterpAt(e.kind, e.in, i, f), IF Wide(e.kind) THEN 48 ELSE 8)
(* positions far outside: m * 2^x with a large exponent, either sign *)
FarLine(e) ==
  /\ e.panic = 0 /\ e.bad = 0 /\ e.same = 1
  /\ \A k \in 1..Len(e.far) : e.far[k][1] > 0 \/ e.kind \in {"lin", "lin32"} => e.out[k] = 0

(* ---- windows, units of 2^-28 *)
WindowLine(e) ==
  /\ e.panic = 0 /\ e.bad = 0
  /\ Len(e.out) = e.n /\ Len(e.out32) = e.n
  /\ \A i \in 1..e.n :
       /\ Near(e.out[i], Window(e.name, e.n, i - 1), 1024)               \* 4e-6
       /\ Near(e.out[i], e.out[e.n + 1 - i], 64)
       /\ e.out[i] >= -268 /\ e.out[i] <= One28 + 268                        \* 10^-6
       /\ (i < e.n + 1 - i /\ i + 1 <= e.n + 1 - i => e.out[i] <= e.out[i + 1] + 64)
       /\ Near(e.out32[i], e.out[i], 12)
CoeffLine(e) ==
  /\ e.panic = 0 /\ e.bad = 0
  /\ \E c \in {FreqCoeff(e.name)} :
       /\ Len(e.out) = Len(c) /\ Len(e.out32) = Len(c)
       /\ \A i \in 1..Len(c) : Near(e.out[i], c[i], 2) /\ Near(e.out32[i], c[i], 16)

(* ---- arctangents; float results in units of 2^-24, integer ones as they are *)
ToRad(v) == FixedAngle(v)
FloatPoint(a, o) ==
  LET t == AngleOf(a[1], a[2], a[3], a[4]) \div 16
      axis == a[1] = 0 \/ a[3] = 0
      zero == a[1] = 0 /\ a[3] = 0
  IN /\ Near(o[1], IF zero THEN 0 ELSE t, IF zero THEN 0 ELSE IF axis THEN 168 ELSE 171127)      \* 10^-5, 0.0102
     /\ Near(o[2], IF zero THEN 0 ELSE t, IF zero THEN 0 ELSE IF axis THEN 8 ELSE 83886)          \* 0.005
     /\ Near(o[3], IF zero THEN 0 ELSE t, 8)                                                      \* Phase32
     /\ o[4] = o[1]                                                                               \* FastPhase32
     /\ (a[1] # 0 => Near(o[5], 0 - o[1], 16) /\ Near(o[6], 0 - o[2], 16))                        \* at -y
FloatLine(e) ==
  /\ e.panic = 0 /\ e.bad = 0 /\ e.conj = 1 /\ Len(e.outs) = Len(e.args)
  /\ \A k \in 1..Len(e.args) : FloatPoint(e.args[k], e.outs[k])
IntPoint(a, o) ==
  LET y == a[1]  x == a[2] IN
  IF y = 0 /\ x = 0 THEN o[1] = 0 /\ o[2] = 0
  ELSE LET t == Atan2(y, x) IN
       IF y = 0 \/ x = 0
       THEN LET q == (Mag(t) + 1000) \div (Pi28 \div 16384) IN
            Mag(o[1]) = q /\ Mag(o[2]) = q /\ (t < 0 => o[1] < 0 /\ o[2] < 0) /\ (t > 0 => o[1] > 0 /\ o[2] > 0)
       ELSE /\ Near(ToRad(o[1]), t, 21474836)              \* 0.08
            /\ Near(ToRad(o[2]), t, 1342177)               \* 0.005
            /\ o[3] = 0 - o[1] /\ o[4] = 0 - o[2]          \* at -y
IntLine(e) ==
  /\ e.panic = 0 /\ e.bad = 0 /\ Len(e.outs) = Len(e.args)
  /\ \A k \in 1..Len(e.args) : Mag(e.outs[k][1]) <= 16384 /\ Mag(e.outs[k][2]) <= 16384 /\ IntPoint(e.args[k], e.outs[k])

Step(e) ==
  CASE e.op = "interp" -> InterpLine(e)
    [] e.op = "far" -> FarLine(e)
    [] e.op = "window" -> WindowLine(e)
    [] e.op = "coeff" -> CoeffLine(e)
    [] e.op = "atan" -> FloatLine(e)
    [] e.op = "iatan" -> IntLine(e)
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Step(Trace[l])) = TRUE
Spec == Init /\ [][Next]_vars
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
