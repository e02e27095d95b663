------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* The slice operations of package dsp: how many items are processed, what *)
(* memory they write and what each item's result is, from the exported     *)
(* documentation.  An operation takes In(fn) input elements for Out(fn)    *)
(* output elements per item.                                               *)
(***************************************************************************)
EXTENDS ExactFloat

In(fn) == CASE fn \in {"Ui8toc64", "I8toc64", "I16bleToF64", "I16bleToF32"} -> 2
            [] fn = "I32bleToF32" -> 4
            [] OTHER -> 1
Out(fn) == CASE fn \in {"Ui8toi16b", "C64toi8", "F32toi16ble", "I16ToBLE"} -> 2
             [] fn = "F32Tof32ble" -> 4
             [] OTHER -> 1
HasMul(fn) == fn \in {"VMulC64", "VMulC64xF32"}
Reduces(fn) == fn \in {"VMaxF32", "VMinF32"}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Items(fn, ni, no, nm) ==
  Least({ni \div In(fn), no \div Out(fn)} \cup (IF HasMul(fn) THEN {nm} ELSE {}))

(* C01: exactly the output elements 0..w-1 are written *)
Written(fn, ni, no, nm) == IF Reduces(fn) THEN 0 ELSE Items(fn, ni, no, nm) * Out(fn)
TouchOk(e) ==
  LET w == Written(e.fn, e.ni, e.no, e.nm) IN
  /\ e.fault = 0 /\ e.inchg = 0
  /\ e.cnt = w
  /\ (w > 0 => e.lo = 0 /\ e.hi = w - 1)

(* ---------------------------------------------------------------- values *)
S8(b)  == IF b >= 128 THEN b - 256 ELSE b
S16(u) == IF u >= 32768 THEN u - 65536 ELSE u
U16(s) == IF s < 0 THEN s + 65536 ELSE s
Lo(u) == u % 256   Hi(u) == u \div 256
Int16(v) == v >= -32768 /\ v <= 32767
(* scaled float to int16: exact product, truncated toward zero *)
Scaled(x, s) == Trunc(x[1] * s[1], x[2] + s[2])
(* 4 little-endian octets as a 32-bit signed number: top octet signed *)
S32(a, b, c, d) == a + 256 * b + 65536 * c + 16777216 * S8(d)

(* expected output elements of item k (1-based); in, mul, out0 in the      *)
(* encodings of the trace: integers or <<m, e>>                            *)
Item8(fn, in, k) ==
  CASE fn = "Ui8toi16" -> LET v == (in[k] + 128) % 256 IN <<S16(256 * v + v)>>
    [] fn = "Ui8toi16b" -> LET v == (in[k] + 128) % 256 IN <<v, v>>
    [] fn = "Ui8tof32" -> <<in[k] - 128>>
    [] fn = "I8tof32" -> <<S8(in[k])>>
    [] fn = "Ui8toc64" -> <<in[2 * k - 1] - 128, in[2 * k] - 128>>
    [] fn = "I8toc64" -> <<in[2 * k - 1], in[2 * k]>>
    [] fn = "C64toi8" -> <<in[2 * k - 1], in[2 * k]>>
Eight == {"Ui8toi16", "Ui8toi16b", "Ui8tof32", "I8tof32", "Ui8toc64", "I8toc64", "C64toi8"}

LE16(in, k) == S16(in[2 * k - 1] + 256 * in[2 * k])
Item16Ok(fn, in, s, out, k) ==
  CASE fn = "I16ToBLE" -> out[2 * k - 1] = Lo(U16(in[k])) /\ out[2 * k] = Hi(U16(in[k]))
    [] fn = "F32Tof32ble" ->                     \* in: <<high, low>> halves
         /\ out[4 * k - 3] = Lo(in[k][2]) /\ out[4 * k - 2] = Hi(in[k][2])
         /\ out[4 * k - 1] = Lo(in[k][1]) /\ out[4 * k] = Hi(in[k][1])
    [] fn = "F32toi16" -> LET v == Scaled(in[k], s) IN Int16(v) /\ out[k] = v
    [] fn = "F32toi16ble" -> LET v == Scaled(in[k], s) IN
         Int16(v) /\ out[2 * k - 1] = Lo(U16(v)) /\ out[2 * k] = Hi(U16(v))
    [] fn = "I16bleToF32" -> IsProduct32(out[k], OfInt(LE16(in, k)), s)
    [] fn = "I32bleToF32" ->
         IsProduct32(out[k],
           IF <<in[4 * k - 3], in[4 * k - 2], in[4 * k - 1], in[4 * k]>> = <<0, 0, 0, 128>> THEN <<-1, 31>>
           ELSE OfInt(S32(in[4 * k - 3], in[4 * k - 2], in[4 * k - 1], in[4 * k])), s)
    [] fn = "I16bleToF64" -> IsProduct64(out[k], LE16(in, k), s)
Sixteen == {"I16ToBLE", "F32Tof32ble", "F32toi16", "F32toi16ble", "I16bleToF32", "I32bleToF32", "I16bleToF64"}

(* vector arithmetic on integers small enough to be exact; complex numbers *)
(* are two consecutive elements                                            *)
Re(v, k) == v[2 * k - 1]
Im(v, k) == v[2 * k]
ItemV(fn, in, mul, out0, s, k) ==
  CASE fn = "VScaleF32" -> <<in[k] * s>>
    [] fn = "VScaleC64" -> <<Re(in, k) * s, Im(in, k) * s>>
    [] fn = "VAddF32" -> <<in[k] + out0[k]>>
    [] fn = "VAddC64" -> <<Re(in, k) + Re(out0, k), Im(in, k) + Im(out0, k)>>
    [] fn = "VMulC64" -> <<Re(in, k) * Re(mul, k) - Im(in, k) * Im(mul, k),
                           Re(in, k) * Im(mul, k) + Im(in, k) * Re(mul, k)>>
    [] fn = "VMulC64xF32" -> <<Re(in, k) * mul[k], Im(in, k) * mul[k]>>
Vector == {"VScaleF32", "VScaleC64", "VAddF32", "VAddC64", "VMulC64", "VMulC64xF32"}
Complex(fn) == fn \in {"VScaleC64", "VAddC64", "VMulC64", "VMulC64xF32", "VAbsC64"}
(* |z| for |z|^2 an integer below 2^31: within two units in the last place *)
(* of the root: (m - 2)^2 * 4^e <= n <= (m + 2)^2 * 4^e with m of 24 bits  *)
RECURSIVE Widen(_, _)
Widen(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m >= 8388608 THEN <<m, e>> ELSE Widen(2 * m, e - 1)
GreaterEqBits(a, b) ==          \* normalised or not, least significant first
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      at(s, i) == IF i > Len(s) THEN 0 ELSE s[i]
      diff == {i \in 1..n : at(a, i) # at(b, i)}
  IN IF diff = {} THEN TRUE ELSE LET i == CHOOSE i \in diff : \A j \in diff : i >= j IN at(a, i) = 1
Shifted(b, k) == [i \in 1..k |-> 0] \o b
IsRoot(r, n) ==
  IF r[1] < 0 \/ r[2] > 900 THEN FALSE
  ELSE IF n = 0 THEN r = <<0, 0>>
  ELSE IF r[1] = 0 THEN FALSE
  ELSE LET w == Widen(r[1], r[2])  m == w[1]  k == 0 - 2 * w[2]
           sq(x) == MulBits(BitsOf(x), BitsOf(x))
           nb == IF k >= 0 THEN Shifted(BitsOf(n), k) ELSE BitsOf(n)
           sh(b) == IF k >= 0 THEN b ELSE Shifted(b, 0 - k)
       IN GreaterEqBits(nb, sh(sq(m - 2))) /\ GreaterEqBits(sh(sq(m + 2)), nb)

(* C04: results as bit patterns; NaN has one canonical form; for minimum   *)
(* and maximum the zeros are equal                                         *)
Canon32(x) == IF x[1] % 32768 > 32640 \/ (x[1] % 32768 = 32640 /\ x[2] > 0) THEN <<32704, 0>> ELSE x
Canon64(x) == IF x[1] % 32768 > 32752 \/ (x[1] % 32768 = 32752 /\ (x[2] > 0 \/ x[3] > 0 \/ x[4] > 0))
                THEN <<32760, 0, 0, 0>> ELSE x
IsF64(fn) == fn = "I16bleToF64"
IsInts(fn) == fn \in {"Ui8toi16", "Ui8toi16b", "C64toi8", "F32toi16", "F32toi16ble", "I16ToBLE", "F32Tof32ble"}
Canonical(fn, x) ==
  IF IsInts(fn) THEN x
  ELSE IF IsF64(fn) THEN Canon64(x)
  ELSE IF Reduces(fn) /\ x[1] % 32768 = 0 /\ x[2] = 0 THEN <<0, 0>>
  ELSE Canon32(x)
=============================================================================
