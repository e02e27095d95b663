----------------------------- MODULE ExactFloat -----------------------------
(***************************************************************************)
(* Exact binary floating point numbers: <<m, e>> is m * 2^e with m odd,    *)
(* zero is <<0, 0>>, infinities <<1, 998>>, <<-1, 998>>, NaN <<0, 999>>.   *)
(* Large significands are bit sequences, least significant bit first.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* bits of a natural *)
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % 2>> \o BitsOf(n \div 2)
RECURSIVE OddPart(_, _)
OddPart(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 2 = 0 THEN OddPart(m \div 2, e + 1) ELSE <<m, e>>
OfInt(n) == OddPart(n, 0)                        \* |n| < 2^31
(* sum of two bit sequences, second shifted left by k *)
AddShifted(a, b, k) ==
  LET n == IF Len(a) > Len(b) + k THEN Len(a) ELSE Len(b) + k
      at(s, i) == IF i < 1 \/ i > Len(s) THEN 0 ELSE s[i]
      r == FoldLeft(LAMBDA acc, i : LET t == at(a, i) + at(b, i - k) + acc.c IN
                                      [s |-> Append(acc.s, t % 2), c |-> t \div 2],
                    [s |-> <<>>, c |-> 0], [i \in 1..n |-> i])
  IN IF r.c = 1 THEN Append(r.s, 1) ELSE r.s
MulBits(x, y) ==
  LET a == IF Len(x) >= Len(y) THEN x ELSE y
      b == IF Len(x) >= Len(y) THEN y ELSE x IN
  FoldLeft(LAMBDA acc, i : IF b[i] = 1 THEN AddShifted(acc, a, i - 1) ELSE acc, <<>>, [i \in 1..Len(b) |-> i])
(* without zeros at either end: <<bits, shift>> *)
NormBits(b, e) ==
  LET on == {i \in 1..Len(b) : b[i] = 1} IN
  IF on = {} THEN <<<<>>, 0>>
  ELSE LET lo == CHOOSE i \in on : \A j \in on : i <= j
           hi == CHOOSE i \in on : \A j \in on : i >= j
       IN <<SubSeq(b, lo, hi), e + lo - 1>>
(* the nearest number of at most p significant bits, ties to even *)
RoundBits(b, e, p) ==
  LET n == NormBits(b, e)  s == n[1]  d == Len(s) - p IN
  IF d <= 0 THEN n
  ELSE LET q == SubSeq(s, d + 1, Len(s))
           up == s[d] = 1 /\ (q[1] = 1 \/ (\E i \in 1..(d - 1) : s[i] = 1))
       IN NormBits(IF up THEN AddShifted(q, <<1>>, 0) ELSE q, n[2] + d)

(* float32 product of two finite numbers, rounded once *)
Sign(m) == IF m < 0 THEN 0 - 1 ELSE 1
SameBits(x, n) == /\ BitsOf(Abs(x[1])) = n[1]
                  /\ (x[1] # 0 => x[2] = n[2])
IsProduct32(r, a, b) ==
  /\ Len(r) = 2 /\ r[2] < 900
  /\ SameBits(r, RoundBits(MulBits(BitsOf(Abs(a[1])), BitsOf(Abs(b[1]))), a[2] + b[2], 24))
  /\ (r[1] # 0 => Sign(r[1]) = Sign(a[1]) * Sign(b[1]))
(* float64 <<sign, hi, lo, e>> is the rounded product of n and such a scale *)
Bits64(x) == LET l == BitsOf(x[3]) IN
             IF x[2] = 0 THEN l ELSE (l \o [i \in 1..(26 - Len(l)) |-> 0]) \o BitsOf(x[2])
IsProduct64(r, n, s) ==
  LET p == RoundBits(MulBits(BitsOf(Abs(n)), Bits64(s)), s[4], 53) IN
  /\ Len(r) = 4 /\ r[4] < 9000
  /\ Bits64(r) = p[1]
  /\ (p[1] # <<>> => /\ r[4] = p[2]
                     /\ (r[1] = 1) = ((n < 0) # (s[1] = 1)))
(* value of a number that is an integer below 2^31 *)
IsWhole(x) == x[2] >= 0 /\ x[2] < 31 /\ (x[1] = 0 \/ Abs(x[1]) < 2 ^ (31 - x[2]))
Whole(x) == x[1] * 2 ^ x[2]
(* truncation toward zero of a * b when the product of the significands is exact *)
Trunc(m, e) == LET v == IF e >= 0 THEN Abs(m) * 2 ^ e
                        ELSE IF e < -30 THEN 0 ELSE Abs(m) \div (2 ^ (0 - e))
               IN IF m < 0 THEN 0 - v ELSE v
=============================================================================
