------------------------------- MODULE Arctan -------------------------------
(***************************************************************************)
(* The four arctangent approximations as fixed-point definitions, and the  *)
(* angle of pairs of floating point numbers.                               *)
(***************************************************************************)
EXTENDS Windows
(* angle of (x, y) = (xm * 2^xe, ym * 2^ye), mantissas 0 or of 24 bits;     *)
(* units 2^-28                                                              *)
Lower(m, k) == IF k >= 24 THEN 0 ELSE IF m < 0 THEN 0 - ((0 - m) \div Pow2[k]) ELSE m \div Pow2[k]
AngleOf(ym, ye, xm, xe) ==
  IF ym = 0 \/ xm = 0 THEN Atan2(ym, xm)
  ELSE LET d == ye - xe IN
       IF d >= 0 THEN Atan2(ym * 8, Lower(xm * 8, IF d > 40 THEN 40 ELSE d))
       ELSE IF d > -24 THEN Atan2(Lower(ym * 8, 0 - d), xm * 8)
       ELSE IF xm > 0 THEN 0 ELSE IF ym > 0 THEN Pi28 ELSE 0 - Pi28
(* ---- definitions, k / n = y / x ratios; units 2^-28 *)
(* (0.1963 r^2 - 0.9817) r around the diagonal, r in units of 2^-28 *)
Poly(r) == Mul28(Mul28(Mul28(52693880, r), r) - 263523095, r)     \* 0.1963, 0.9817
Pi4 == 210828714
Pi34 == 632486143
FastDef(r) == Pi4 + Poly(r)
Div28(a, b) ==        \* a / b, 0 <= a <= b < 2^30, long division
  IF a = b THEN One28
  ELSE FoldLeft(LAMBDA s, i : LET t == 2 * s[2] IN IF t >= b THEN <<2 * s[1] + 1, t - b>> ELSE <<2 * s[1], t>>,
                <<0, a>>, Steps)[1]
(* z / (1 + 0.28 z^2) = k n / (n^2 + 0.28 k^2), k <= n *)
RatioDef(k, n) == Div28(100 * k * n, 100 * n * n + 28 * k * k)
(* ---- the integer functions: a full circle is 32768 *)
TruncDiv(a, b) == LET q == Mag(a) \div Mag(b) IN IF (a < 0) # (b < 0) THEN 0 - q ELSE q
FixedDef(y, x) ==
  IF x = 0 /\ y = 0 THEN 0
  ELSE LET b == Mag(y)
           a == IF x >= 0 THEN 4096 - TruncDiv(4096 * (x - b), x + b) ELSE 12288 - TruncDiv(4096 * (x + b), b - x)
       IN IF y < 0 THEN 0 - a ELSE a
(* units 2^-28 of a 32768th of a turn: pi / 16384 *)
FixedAngle(v) == (Pi28 \div 16384) * v + ((Pi28 % 16384) * v) \div 16384
LutEntry(t) == Atan2(t, 256) \div (Pi28 \div 16384)
LutDef(y, x) ==
  IF x = 0 THEN IF y > 0 THEN 8192 ELSE IF y < 0 THEN -8192 ELSE 0
  ELSE LET t == TruncDiv(y * 256, x) IN
       IF t = 0 THEN IF x > 0 THEN 0 ELSE IF y < 0 THEN -16384 ELSE 16384
       ELSE IF Mag(t) >= 131072 THEN IF y > 0 THEN 8192 ELSE -8192
       ELSE IF t > 0 THEN IF y > 0 THEN LutEntry(t) ELSE LutEntry(t) - 16384
       ELSE IF y > 0 THEN 16384 - LutEntry(0 - t) ELSE 0 - LutEntry(0 - t)
=============================================================================
