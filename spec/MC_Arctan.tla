------------------------------ MODULE MC_Arctan ------------------------------
(* The approximations' error bounds, on a whole grid of ratios and on all   *)
(* small integer pairs.                                                      *)
EXTENDS Arctan, TLC
CONSTANTS Ratios, Ints
VARIABLES y, x
Init == y = 0 /\ x = 0 - Ints
Next == \/ y < Ratios /\ ((y < Ints \/ x = 0 - Ints) = TRUE) /\ y' = y + 1 /\ UNCHANGED x
        \/ y = 0 /\ x < Ints /\ x' = x + 1 /\ UNCHANGED y
Spec == Init /\ [][Next]_<<y, x>>
Bound(a, b, tol) == Mag(a - b) <= tol
(* r = k/n from -1 to 1: angle of (n + k, n - k) *)
Fast == \A k \in {y, 0 - y} :
  y <= Ratios => LET r == IF k < 0 THEN 0 - Div28(0 - k, Ratios) ELSE Div28(k, Ratios) IN
  Bound(FastDef(r), Atan2(Ratios - k, Ratios + k), 2738041)             \* 0.0102
Second == y <= Ratios => Bound(RatioDef(y, Ratios), Atan2(y, Ratios), 1342177)   \* 0.005
Both == (y <= Ints /\ (x # 0 \/ y # 0)) => \A b \in {y, 0 - y} :
  LET t == Atan2(b, x) IN
  /\ Bound(FixedAngle(FixedDef(b, x)), t, 21474836)
  /\ Bound(FixedAngle(LutDef(b, x)), t, 1342177)
  /\ (b # 0 => FixedDef(0 - b, x) = 0 - FixedDef(b, x))
  /\ (b # 0 => LutDef(0 - b, x) = 0 - LutDef(b, x))
=============================================================================
