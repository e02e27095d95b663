----------------------------- MODULE KernelTrace ----------------------------
(***************************************************************************)
(* Calls of the real kernels, in every CPU configuration and build.        *)
(*  touch    memory written and read                                 (C01) *)
(*  data     values                                    (C02, C03, V01)     *)
(*  roundtrip int16 to float and back                              (C03)   *)
(*  agree    the same call in all configurations                    (C04)  *)
(*  extreme  one element moved through an array                     (V02)  *)
(* Operations are stateless: a behaviour is any sequence of calls.         *)
(***************************************************************************)
EXTENDS Kernels, TLC, Json, IOUtils
Trace  == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
VARIABLES l, calls
vars == <<l, calls>>
Init == l = 1 /\ calls = 0

Touch(e) == TouchOk(e)
N(e) == Items(e.fn, IF Complex(e.fn) \/ e.fn = "C64toi8" THEN Len(e.in) \div 2 ELSE Len(e.in),
              e.no, IF e.fn = "VMulC64" THEN Len(e.mul) \div 2 ELSE Len(e.mul))
Flat(fn, k) == IF Complex(fn) THEN 2 ELSE 1
Data8(e) ==
  \A k \in 1..N(e) :
    LET x == Item8(e.fn, e.in, k) IN
    SubSeq(e.out, Len(x) * (k - 1) + 1, Len(x) * k) = x
Data16(e) == \A k \in 1..N(e) : Item16Ok(e.fn, e.in, e.scale, e.out, k)
(* results as integers; rounded products as <<m, e>> *)
DataV(e) ==
  IF e.fn = "VAbsC64" THEN
    \A k \in 1..N(e) : IsRoot(e.out[k], Re(e.in, k) * Re(e.in, k) + Im(e.in, k) * Im(e.in, k))
  ELSE \A k \in 1..N(e) :
    LET x == ItemV(e.fn, e.in, e.mul, e.out0, Whole(e.scale), k) IN
    SubSeq(e.out, Len(x) * (k - 1) + 1, Len(x) * k) = x
(* any finite factors: one correctly rounded product per element *)
Products(e) ==
  LET f == IF e.fn = "VScaleF32" THEN 1 ELSE 2 IN
  \A k \in 1..Len(e.in) :
    IsProduct32(e.out[k], e.in[k], IF e.fn = "VMulC64xF32" THEN e.mul[(k + 1) \div 2] ELSE e.scale)
Data(e) ==
  /\ e.panic = 0
  /\ Len(e.out) >= Written(e.fn, 0, 0, 0)
  /\ IF e.fn \in Eight THEN Data8(e) ELSE IF e.fn \in Sixteen THEN Data16(e)
     ELSE IF e.id = 1 THEN Products(e) ELSE DataV(e)
RoundTrip(e) == /\ e.panic = 0 /\ e.out = e.in
                /\ e.ble = [i \in 1..(2 * Len(e.in)) |->
                     LET u == U16(e.in[(i + 1) \div 2]) IN IF i % 2 = 1 THEN Lo(u) ELSE Hi(u)]
Agree(e) ==
  /\ \A i \in 1..Len(e.runs) : e.runs[i].panic = 0
  /\ \A i \in 2..Len(e.runs) :
       LET a == e.runs[1].out  b == e.runs[i].out IN
       IF Len(a) = Len(b) THEN \A k \in 1..Len(a) : Canonical(e.fn, a[k]) = Canonical(e.fn, b[k])
       ELSE FALSE
NegInf == -2139095040
PosInf == 2139095040
MaxOf(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, NegInf, s)
MinOf(s) == FoldLeft(LAMBDA a, x : IF x < a THEN x ELSE a, PosInf, s)
Extreme(e) ==
  /\ Len(e.res) = Len(e.pos)
  /\ \A i \in 1..Len(e.pos) :
       LET a == [e.base EXCEPT ![e.pos[i] + 1] = e.v] IN
       e.res[i] = (IF e.fn = "VMaxF32" THEN MaxOf(a) ELSE MinOf(a))
Single(e) == e.out = <<IF e.fn = "VMaxF32" THEN MaxOf(e.in) ELSE MinOf(e.in)>> /\ e.panic = 0
Huge(e) == e.bad = 0 /\ e.fault = 0
Ok(e) ==
  CASE e.op = "touch" -> Touch(e)
    [] e.op = "data" -> (IF Reduces(e.fn) THEN Single(e) ELSE Data(e))
    [] e.op = "roundtrip" -> RoundTrip(e)
    [] e.op = "agree" -> Agree(e)
    [] e.op = "extreme" -> Extreme(e)
    [] e.op = "huge" -> Huge(e)
    [] OTHER -> FALSE                      \* the process died
Next == /\ l <= Len(Trace) /\ (Ok(Trace[l]) = TRUE)
        /\ l' = l + 1 /\ calls' = calls + 1
Spec == Init /\ [][Next]_vars
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
