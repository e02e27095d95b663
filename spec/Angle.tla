------------------------------- MODULE Angle -------------------------------
(***************************************************************************)
(* Fixed-point trigonometry by CORDIC, in units of 2^-28 (error below      *)
(* 2^-22, see MC_Angle).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
AtanTab == <<210828714, 124459457, 65760959, 33381290, 16755422, 8385879, 4193963, 2097109, 1048571, 524287,
             262144, 131072, 65536, 32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2>>
Pi28 == 843314857
HalfPi28 == 421657428
Gain28 == 163008219
Steps == [i \in 1..28 |-> i]
Mag(x) == IF x < 0 THEN 0 - x ELSE x
Pow2 == [i \in 0..30 |-> IF i = 30 THEN 1073741824 ELSE 2 ^ i]
RECURSIVE UpTo(_, _, _)
UpTo(y, x, lim) == IF y >= lim \/ x >= lim THEN <<y, x>> ELSE UpTo(2 * y, 2 * x, lim)
(* angle of (x, y) for x > 0, y >= 0 *)
FirstQuadrant(y, x) ==
  LET s == UpTo(y, x, 134217728) IN            \* 2^27
  FoldLeft(LAMBDA a, i :
             LET p == Pow2[i - 1] IN
             IF a.y > 0 THEN [x |-> a.x + (a.y \div p), y |-> a.y - (a.x \div p), z |-> a.z + AtanTab[i]]
             ELSE IF a.y < 0 THEN [x |-> a.x + ((0 - a.y) \div p), y |-> a.y + (a.x \div p), z |-> a.z - AtanTab[i]]
             ELSE a,
           [x |-> s[2], y |-> s[1], z |-> 0], Steps).z
(* atan2 in units of 2^-28 rad, |y|, |x| < 2^28, not both zero *)
Atan2(y, x) ==
  LET q == IF x = 0 THEN HalfPi28
           ELSE IF y = 0 THEN 0
           ELSE FirstQuadrant(Mag(y), Mag(x))
      h == IF x < 0 THEN Pi28 - q ELSE q
  IN IF y < 0 THEN 0 - h ELSE h
(* cosine and sine of 2 pi k / n, units of 2^-28; n < 32768 *)
Rotated(z) ==
  FoldLeft(LAMBDA a, i :
             LET p == Pow2[i - 1] IN
             IF a.z >= 0 THEN [x |-> a.x - (a.y \div p), y |-> a.y + (a.x \div p), z |-> a.z - AtanTab[i]]
             ELSE [x |-> a.x + (a.y \div p), y |-> a.y - (a.x \div p), z |-> a.z + AtanTab[i]],
           [x |-> Gain28, y |-> 0, z |-> z], Steps)
CosSin(k, n) ==
  LET t == 4 * (k % n)
      q == t \div n
      r == t % n
      z == (HalfPi28 \div n) * r + ((HalfPi28 % n) * r) \div n
      c == IF r = 0 THEN [x |-> 268435456, y |-> 0] ELSE Rotated(z)
  IN CASE q = 0 -> <<c.x, c.y>>
       [] q = 1 -> <<0 - c.y, c.x>>
       [] q = 2 -> <<0 - c.x, 0 - c.y>>
       [] q = 3 -> <<c.y, 0 - c.x>>
=============================================================================
