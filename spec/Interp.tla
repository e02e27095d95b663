------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation between integer samples at positions i + f/16: linear,    *)
(* 4-point 3rd-order Hermite, and the optimal (2x oversampled) 4-point     *)
(* 4th-order and 6-point 5th-order polynomials in z = f/16 - 1/2.          *)
(***************************************************************************)
EXTENDS Windows
(* samples outside the slice count as zero; positions from 0 *)
Sample(s, i) == IF i < 0 \/ i >= Len(s) THEN 0 ELSE s[i + 1]
(* units of 1/16 *)
LinearAt(s, i, f) == IF i < 0 \/ i >= Len(s) THEN 0 ELSE 16 * Sample(s, i) + f * (Sample(s, i + 1) - Sample(s, i))
(* units of 2^-13 *)
HermiteAt(s, i, f) ==
  LET a == Sample(s, i - 1)  b == Sample(s, i)  c == Sample(s, i + 1)  d == Sample(s, i + 2)
      k0 == 2 * b
      k1 == c - a
      k2 == 2 * a - 5 * b + 4 * c - d
      k3 == (d - a) + 3 * (b - c)
  IN k0 * 4096 + k1 * 256 * f + k2 * 16 * f * f + k3 * f * f * f
(* coefficients in units of 2^-28: row k holds the weights of the sample     *)
(* pairs (1,0), (2,-1), (3,-2) in the coefficient of z^(k-1); even powers   *)
(* take the sum, odd powers the difference                                   *)
Four == <<<<122529829, 11688147>>,
  <<126799985, 47477142>>,
  <<0 - 68095309, 68107226>>,
  <<0 - 101782918, 32085999>>,
  <<11414317, 0 - 11513583>>>>
Six == <<<<108752319, 24835097, 630304>>,
  <<76082141, 58259291, 3514611>>,
  <<0 - 51361818, 43453914, 7908155>>,
  <<0 - 44215685, 0 - 414859, 9124850>>,
  <<10323487, 0 - 15335546, 5011021>>,
  <<11590909, 0 - 4839393, 408478>>>>
(* weight of the sample at offset o, units 2^-24 *)
Weight(tab, o, f) ==
  LET p == IF o >= 1 THEN o ELSE 1 - o
      z == (2 * f - 16) * 8388608                  \* units 2^-28
      h == FoldLeft(LAMBDA acc, k :
                      LET j == Len(tab) + 1 - k
                          c == IF o >= 1 \/ (j - 1) % 2 = 0 THEN tab[j][p] ELSE 0 - tab[j][p]
                      IN Mul28(acc, z) + c, 0, [k \in 1..Len(tab) |-> k])
  IN h \div 16
Offsets(tab) == LET n == Len(tab[1]) IN [k \in 1..(2 * n) |-> k - n]
Weights(tab) == [f \in 0..15 |-> [k \in 1..(2 * Len(tab[1])) |-> Weight(tab, Offsets(tab)[k], f)]]
OptimalAt(tab, w, s, i, f) ==
  FoldLeft(LAMBDA acc, k : acc + Sample(s, i + Offsets(tab)[k]) * w[f][k], 0, [k \in 1..(2 * Len(tab[1])) |-> k])
=============================================================================
