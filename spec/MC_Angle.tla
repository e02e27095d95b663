------------------------------ MODULE MC_Angle ------------------------------
(* The fixed-point trigonometry is what it claims: exact points, symmetry,  *)
(* Pythagoras, and Atan2 inverts CosSin.                                    *)
EXTENDS Angle, TLC
CONSTANT MaxN
VARIABLES n, k
Init == n = 1 /\ k = 0
Next == IF k + 1 < n THEN k' = k + 1 /\ n' = n ELSE n < MaxN /\ n' = n + 1 /\ k' = 0
Spec == Init /\ [][Next]_<<n, k>>
Near(a, b, t) == Mag(a - b) <= t
C == CosSin(k, n)
R(v) == (v + 8192) \div 16384                       \* units of 2^-14
Turn == IF 2 * k <= n THEN k ELSE k - n              \* -n/2 .. n/2
Angle28 == 2 * ((Pi28 \div n) * Turn + ((Pi28 % n) * Turn) \div n)
CosSinOk ==
  /\ Near(R(C[1]) * R(C[1]) + R(C[2]) * R(C[2]), 268435456, 40000)
  /\ (LET a == Atan2(C[2] \div 4, C[1] \div 4) IN
      \/ Near(a, Angle28, 64)
      \/ 2 * k = n /\ Near(Mag(a), Pi28, 64))
  /\ (k > 0 => LET d == CosSin(n - k, n) IN Near(C[1], d[1], 64) /\ Near(C[2], 0 - d[2], 64))
(* known points *)
ASSUME CosSin(1, 6)[1] \in (134217728 - 64)..(134217728 + 64)      \* 1/2
ASSUME CosSin(1, 8)[1] \in (189812531 - 64)..(189812531 + 64)      \* sqrt(2)/2
ASSUME CosSin(1, 12)[1] \in (232471924 - 64)..(232471924 + 64)     \* sqrt(3)/2
ASSUME CosSin(1, 10)[1] \in (217168847 - 64)..(217168847 + 64)     \* golden ratio / 2
ASSUME Atan2(3, 4) \in (172738514 - 64)..(172738514 + 64)
ASSUME Atan2(1, 2) \in (124459457 - 64)..(124459457 + 64)
ASSUME Atan2(1, -1) \in (632486143 - 64)..(632486143 + 64)
ASSUME Atan2(-1000000, 1) \in (-421657428 + 268 - 64)..(-421657428 + 268 + 64)
=============================================================================
