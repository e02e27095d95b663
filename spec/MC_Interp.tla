------------------------------ MODULE MC_Interp ------------------------------
(* What the interpolators promise: exact at the samples (linear, Hermite),  *)
(* constants and straight lines reproduced, continuous.                     *)
EXTENDS Interp, TLC
CONSTANTS Values, Len0
VARIABLES s, i, f
Init == /\ s \in UNION {[1..n -> Values] : n \in 0..Len0}
        /\ i \in 0..Len0 /\ f = 0
Next == f < 15 /\ f' = f + 1 /\ UNCHANGED <<s, i>>
Spec == Init /\ [][Next]_<<s, i, f>>
AtSamples == f = 0 => LinearAt(s, i, 0) = 16 * Sample(s, i) /\ HermiteAt(s, i, 0) = 8192 * Sample(s, i)
Continuous == LinearAt(s, i, 16) = 16 * Sample(s, i + 1) \/ i >= Len(s)
HermiteContinuous == HermiteAt(s, i, 16) = 8192 * Sample(s, i + 1)
Between == LET lo == IF Sample(s, i) < Sample(s, i + 1) THEN Sample(s, i) ELSE Sample(s, i + 1)
               hi == IF Sample(s, i) < Sample(s, i + 1) THEN Sample(s, i + 1) ELSE Sample(s, i)
           IN i < Len(s) => 16 * lo <= LinearAt(s, i, f) /\ LinearAt(s, i, f) <= 16 * hi
Line == [k \in 1..8 |-> 3 * k - 5]
ASSUME \A p \in 1..5 : \A g \in 0..15 :
         /\ LinearAt(Line, p, g) = 16 * Sample(Line, p) + 3 * g
         /\ HermiteAt(Line, p, g) = 8192 * Sample(Line, p) + 3 * 512 * g
(* quadratics: the Hermite form is exact *)
Square(k) == k * k
Parabola == [k \in 1..8 |-> (k - 1) * (k - 1)]
ASSUME \A p \in 1..5 : \A g \in 0..15 : HermiteAt(Parabola, p, g) = 32 * (16 * p + g) * (16 * p + g)
Sum(v) == FoldLeft(LAMBDA a, b : a + b, 0, v)
(* the optimal kernels: gain within 0.1 % of one, symmetric, and nearly     *)
(* continuous where one sample interval meets the next                      *)
ASSUME \A tab \in {Four, Six} : \A g \in 0..15 :
         LET w == [k \in 1..(2 * Len(tab[1])) |-> Weight(tab, Offsets(tab)[k], g)]
             v == [k \in 1..(2 * Len(tab[1])) |-> Weight(tab, Offsets(tab)[k], 16 - g)]
         IN /\ Mag(Sum(w) - 16777216) <= 16800
            /\ \A k \in 1..Len(w) : Mag(w[k] - v[Len(w) + 1 - k]) <= 4
ASSUME \A tab \in {Four, Six} :
         LET a == [k \in 1..(2 * Len(tab[1])) |-> Weight(tab, Offsets(tab)[k], 16)]
             b == [k \in 1..(2 * Len(tab[1])) |-> Weight(tab, Offsets(tab)[k], 0)]
         IN \A k \in 2..Len(a) : Mag(a[k] - b[k - 1]) <= 167772     \* 0.01
=============================================================================
