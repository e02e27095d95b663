------------------------------ MODULE Spectral ------------------------------
(***************************************************************************)
(* Discrete Fourier transforms of integer samples in fixed point, windowed *)
(* DFTs, squared magnitudes, tone selection, and the exact recurrences     *)
(* over the integer rings in which the bins of 1, 2, 3, 4 and 6 point      *)
(* transforms lie.                                                         *)
(***************************************************************************)
EXTENDS Windows
Abs(x) == IF x < 0 THEN 0 - x ELSE x
MaxN(a, b) == IF a > b THEN a ELSE b
(* nearest bin: floor(n f / fs + 1/2) *)
Bin(n, f, fs) == n * (f \div fs) + (2 * n * (f % fs) + fs) \div (2 * fs)
(* cos and sin of 2 pi k m / n in units of 2^-prec *)
Down28(v, prec) == (v + Pow2[27 - prec]) \div Pow2[28 - prec]
Twiddles(k, n, prec) ==
  [m \in 0..(n - 1) |-> LET c == CosSin(((k % n) * m) % n, n) IN <<Down28(c[1], prec), Down28(c[2], prec)>>]
Range0(k) == [i \in 1..k |-> i]
(* x: sequence of <<re, im>>; sum of x[m] * e^(-i w m) *)
DFT(x, tw, n) ==
  FoldLeft(LAMBDA s, i : LET t == tw[(i - 1) % n] IN
             <<s[1] + x[i][1] * t[1] + x[i][2] * t[2], s[2] + x[i][2] * t[1] - x[i][1] * t[2]>>,
           <<0, 0>>, Range0(Len(x)))
Size(x) == FoldLeft(LAMBDA s, v : s + Abs(v[1]) + Abs(v[2]), 0, x)
(* squares: a, b < 2^30 in units 2^-prec, result in units 2^-(2 prec - 30) *)
Square(a) ==
  LET h == (Abs(a) + 512) \div 1024
      p == h \div 1024
      q == h % 1024
  IN (p * p * 1024) + (2 * p * q) + ((q * q) \div 1024)
Power(X) == Square(X[1]) + Square(X[2])
(* how far the square may be off when the components are off by e, and     *)
(* single precision rounding                                               *)
PowerTol(X, e) ==
  LET m == MaxN(Abs(X[1]), Abs(X[2])) IN
  (((m \div 16384) * e) \div 8192) + (m \div 131072) + 12 + (Power(X) \div 2097152)

(* ---- sliding transform: combined coefficients, units 2^-prec / wden *)
WindowedTwiddles(k, n, w, prec) ==
  LET tws == [i \in 1..Len(w) |-> Twiddles((k - (Len(w) \div 2) + i - 1) % n, n, prec)] IN
  [m \in 0..(n - 1) |->
     FoldLeft(LAMBDA s, i : <<s[1] + w[i] * tws[i][m][1], s[2] + w[i] * tws[i][m][2]>>, <<0, 0>>, Range0(Len(w)))]
SumAbs(w) == FoldLeft(LAMBDA s, v : s + Abs(v), 0, w)
NewestOf(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
ZeroPairs(n) == [i \in 1..n |-> <<0, 0>>]

(* ---- tone detection *)
(* window weights and twiddles in units of 2^-14, products likewise *)
ToneCoeffs(f, fs, n, w) ==
  LET tw == Twiddles(Bin(n, f, fs), n, 14) IN
  [m \in 0..(n - 1) |-> <<(w[m + 1] * tw[m][1] + 8192) \div 16384, (w[m + 1] * tw[m][2] + 8192) \div 16384>>]
ArgMaxVal(v) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 0, v)

(* ---- exact rings Z[t] with t*t = c*t - 1, t = e^(i w), c = 2 cos w integer *)
Order(c) == CASE c = 2 -> 1 [] c = -2 -> 2 [] c = -1 -> 3 [] c = 0 -> 4 [] c = 1 -> 6
RAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
RTimes(u, c) == <<0 - u[2], u[1] + c * u[2]>>            \* multiplication by t
RECURSIVE RPow(_, _, _)
RPow(u, c, k) == IF k = 0 THEN u ELSE RPow(RTimes(u, c), c, k - 1)
(* exponent -k *)
RNeg(u, c, k) == RPow(u, c, (Order(c) - (k % Order(c))) % Order(c))
RDFT(x, c) == FoldLeft(LAMBDA s, i : RAdd(s, RNeg(<<x[i], 0>>, c, i - 1)), <<0, 0>>, Range0(Len(x)))
RNorm(u, c) == u[1] * u[1] + c * u[1] * u[2] + u[2] * u[2]
Canon(u, c) == CASE c = 2 -> <<u[1] + u[2], 0>> [] c = -2 -> <<u[1] - u[2], 0>> [] OTHER -> u   \* there t is an integer
GoertzelStep(q, x, c) == <<c * q[1] - q[2] + x, q[1]>>
GoertzelOut(q) == <<0 - q[2], q[1]>>                      \* t*q1 - q2
GoertzelMag(q, c) == q[1] * q[1] + q[2] * q[2] - c * q[1] * q[2]
=============================================================================
