------------------------------ MODULE Filters ------------------------------
(***************************************************************************)
(* The streaming filters of package dsp.  A filter is a record of its      *)
(* kind, parameters and what it has to remember between blocks; a block    *)
(* maps it and the samples to outputs and the filter after the block.      *)
(* Complex samples are pairs <<re, im>>.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

M(x) == IF x < 0 THEN 0 - x ELSE x
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], 0 - a[2]>>

(* ------------------------------------------------ complex decimation F01 *)
DecimInit == [sum |-> <<0, 0>>, cnt |-> 0]
DecimStep(d, s, x) ==            \* s = [sum, cnt, out]
  LET t == CAdd(s.sum, x) IN
  IF s.cnt + 1 < d THEN [sum |-> t, cnt |-> s.cnt + 1, out |-> s.out]
  ELSE [sum |-> <<0, 0>>, cnt |-> 0, out |-> Append(s.out, t)]
DecimBlock(d, st, in) ==
  FoldLeft(LAMBDA s, x : DecimStep(d, s, x), [sum |-> st.sum, cnt |-> st.cnt, out |-> <<>>], in)
(* declarative: outputs after the history h *)
SumC(s) == FoldLeft(LAMBDA a, x : CAdd(a, x), <<0, 0>>, s)
DecimOut(d, h) == [j \in 1..(Len(h) \div d) |-> SumC(SubSeq(h, d * (j - 1) + 1, d * j))]

(* ----------------------------------------------- rational decimation F02 *)
(* outputs are kept as sum * slow, to be divided by fast                   *)
RatioInit == [sum |-> 0, ph |-> 0]
RatioStep(f, sl, s, x) ==
  IF s.ph + sl < f THEN [sum |-> s.sum + x, ph |-> s.ph + sl, out |-> s.out]
  ELSE [sum |-> 0, ph |-> s.ph + sl - f, out |-> Append(s.out, (s.sum + x) * sl)]
RatioBlock(f, sl, st, in) ==
  FoldLeft(LAMBDA s, x : RatioStep(f, sl, s, x), [sum |-> st.sum, ph |-> st.ph, out |-> <<>>], in)
CeilDiv(a, b) == (a + b - 1) \div b
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
RatioOut(f, sl, h) ==
  LET cnt == (Len(h) * sl) \div f IN     \* largest j with ceil(j*f/sl) <= Len(h)
  [j \in 1..cnt |-> sl * Sum(SubSeq(h, CeilDiv((j - 1) * f, sl) + 1, CeilDiv(j * f, sl)))]

(* ------------------------------------------------------ demodulation F03 *)
PhaseStep(pre, x) == CMul(x, Conj(pre))
FMBlock(pre, in) == [i \in 1..Len(in) |-> PhaseStep(IF i = 1 THEN pre ELSE in[i - 1], in[i])]

(* ---------------------------------------------------------- rotation F04 *)
Turn(x, k) == CASE k % 4 = 0 -> x
                [] k % 4 = 1 -> <<0 - x[2], x[1]>>
                [] k % 4 = 2 -> <<0 - x[1], 0 - x[2]>>
                [] k % 4 = 3 -> <<x[2], 0 - x[1]>>
RotBlock(k, in) == [i \in 1..Len(in) |-> Turn(in[i], k + i - 1)]

(* ------------------------------------------- difference equations F05-07 *)
(* x, y: histories up to and including the current block, newest last,     *)
(* zero before the first; a1*y[n] + a2*y[n-1] + .. = b1*x[n] + b2*x[n-1].. *)
At(s, i) == IF i < 1 THEN 0 ELSE s[i]
Dot(c, s, n) == FoldLeft(LAMBDA acc, j : acc + c[j] * At(s, n - j + 1), 0, [j \in 1..Len(c) |-> j])
Weight(c) == FoldLeft(LAMBDA acc, v : acc + M(v), 0, c)
(* outputs in units of 1/scale, rounded *)
Equation(b, a, scale, x, y, n, tol) == M(scale * Dot(b, x, n) - Dot(a, y, n)) <= tol
(* exact solution when a[1] = 1 or -1 *)
Solve(b, a, x) ==
  FoldLeft(LAMBDA y, n : Append(y, a[1] * (Dot(b, x, n) - Dot([a EXCEPT ![1] = 0], Append(y, 0), n))),
           <<>>, [i \in 1..Len(x) |-> i])
(* the same, continuing after samples x0 and outputs y0 *)
SolveOn(b, a, x0, y0, in) ==
  LET x == x0 \o in IN
  FoldLeft(LAMBDA y, n : Append(y, a[1] * (Dot(b, x, Len(x0) + n) - Dot([a EXCEPT ![1] = 0], Append(y, 0), Len(y) + 1))),
           y0, [i \in 1..Len(in) |-> i])
(* nearest number of 24 significant bits, ties to even *)
RECURSIVE Pow2Over(_, _)
Pow2Over(v, k) == IF v \div k < 16777216 THEN k ELSE Pow2Over(v, 2 * k)
Round24(v) ==
  LET m == M(v)  k == Pow2Over(m, 1)  q == m \div k  r == m % k
      u == IF 2 * r > k \/ (2 * r = k /\ q % 2 = 1) THEN q + 1 ELSE q
  IN IF v < 0 THEN 0 - u * k ELSE u * k
(* implementation form of the DC blocker: w[n] = x[n] + a*w[n-1], y = w[n] - w[n-1] *)
DCForm(a, w, in) ==
  FoldLeft(LAMBDA s, x : LET v == x + a * s.w IN [w |-> v, out |-> Append(s.out, v - s.w)], [w |-> w, out |-> <<>>], in)
(* direct form I with explicit memory, a[1] = 1 *)
Shift(m, x) == IF Len(m) = 0 THEN m ELSE <<x>> \o SubSeq(m, 1, Len(m) - 1)
DFStep(b, a, s, x) ==
  LET y == b[1] * x + FoldLeft(LAMBDA acc, j : acc + b[j + 1] * s.px[j] - a[j + 1] * s.py[j], 0, [j \in 1..Len(s.px) |-> j])
  IN [px |-> Shift(s.px, x), py |-> Shift(s.py, y), out |-> Append(s.out, y)]
DFBlock(b, a, px, py, in) ==
  FoldLeft(LAMBDA s, x : DFStep(b, a, s, x), [px |-> px, py |-> py, out |-> <<>>], in)
Zeros(n) == [i \in 1..n |-> 0]

(* ------------------------------------------------- biquad designs F07    *)
(* Audio EQ Cookbook, in integers: cos w0 = c/h, sin w0 = s/h, Q = qn/qd   *)
(* (alpha = s*qd / (2*h*qn)), gain A = an/ad, shelf term                   *)
(* 2*sqrt(A)*alpha = (s/h)*(rn/rd).  Coefficients <<b0,b1,b2,a0,a1,a2>>    *)
(* up to a common factor.                                                  *)
Design(fn, c, s, h, q, g) ==
  LET qn == q[1]  qd == q[2]
      al == s * qd                      \* alpha * (2*h*qn)
      one == 2 * h * qn                 \* 1 in the same units
      co == 2 * c * qn                  \* cos in the same units
  IN
  CASE fn = "LowPass" -> <<(one - co), 2 * (one - co), (one - co), 2 * (one + al), 0 - 4 * co, 2 * (one - al)>>
    [] fn = "HighPass" -> <<(one + co), 0 - 2 * (one + co), (one + co), 2 * (one + al), 0 - 4 * co, 2 * (one - al)>>
    [] fn = "BandPassSkirt" -> <<s * qn, 0, 0 - s * qn, one + al, 0 - 2 * co, one - al>>
    [] fn = "BandPassPeak" -> <<al, 0, 0 - al, one + al, 0 - 2 * co, one - al>>
    [] fn = "Notch" -> <<one, 0 - 2 * co, one, one + al, 0 - 2 * co, one - al>>
    [] fn = "AllPass" -> <<one - al, 0 - 2 * co, one + al, one + al, 0 - 2 * co, one - al>>
    [] fn = "Peaking" ->
         LET n == g[1]  d == g[2] IN
         <<n * (one * d + al * n), 0 - 2 * co * n * d, n * (one * d - al * n),
           d * (one * n + al * d), 0 - 2 * co * n * d, d * (one * n - al * d)>>
           \* B0 = 1 + alpha*A, A0 = 1 + alpha/A, multiplied by n*d
    [] fn \in {"LowShelf", "HighShelf"} ->
         LET n == g[1]  d == g[2]  rn == g[3]  rd == g[4]
             \* everything times d*h*rd
             ap == (n + d) * h * rd
             am == (n - d) * h * rd
             apc == (n + d) * c * rd
             amc == (n - d) * c * rd
             t == s * rn * d
         IN IF fn = "LowShelf"
            THEN <<n * (ap - amc + t), 2 * n * (am - apc), n * (ap - amc - t),
                   d * (ap + amc + t), 0 - 2 * d * (am + apc), d * (ap + amc - t)>>
            ELSE <<n * (ap + amc + t), 0 - 2 * n * (am + apc), n * (ap + amc - t),
                   d * (ap - amc + t), 2 * d * (am - apc), d * (ap - amc - t)>>
(* the shelf slope that gives the shelf term rn/rd: S = (A^2+1)/((A-1)^2+r^2) *)
SlopeOk(q, g) ==
  LET n == g[1]  d == g[2]  rn == g[3]  rd == g[4] IN
  q[1] * ((n - d) * (n - d) * rd * rd + rn * rn * d * d) = q[2] * (n * n + d * d) * rd * rd
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduced(x) == LET g == FoldLeft(LAMBDA acc, v : Gcd(M(v), acc), 0, x) IN [i \in 1..Len(x) |-> x[i] \div g]
(* recorded coefficients are divided by A0, in units of 2^-14 *)
DesignOk(fn, c, s, h, q, g, out) ==
  \E x \in {Reduced(Design(fn, c, s, h, q, g))} :
    LET same(o, v) == M(o * x[4] - 16384 * v) <= M(x[4]) IN
    same(out[1], x[1]) /\ same(out[2], x[2]) /\ same(out[3], x[3]) /\ same(out[4], x[5]) /\ same(out[5], x[6])
=============================================================================
