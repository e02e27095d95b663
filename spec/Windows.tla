------------------------------ MODULE Windows -------------------------------
(***************************************************************************)
(* The named windows, in units of 2^-28.                                   *)
(***************************************************************************)
EXTENDS Angle
(* product of two numbers in units of 2^-28, magnitudes at most 1 *)
Mul28(a, b) ==
  LET x == Mag(a)  y == Mag(b)
      xh == x \div 16384  xl == x % 16384  yh == y \div 16384  yl == y % 16384
      p == xh * yh + ((xh * yl + xl * yh + ((xl * yl) \div 16384)) \div 16384)
  IN IF (a < 0) # (b < 0) THEN 0 - p ELSE p
CosineTerms(name) ==
  CASE name = "Hamming"  -> <<144514912, 123920544>>                          \* 0.53836, 0.46164
    [] name = "Hanning"  -> <<134217728, 134217728>>                          \* 1/2, 1/2
    [] name = "Blackman" -> <<112742892, 134217728, 21474836>>                \* 0.42, 0.5, 0.08
    [] name = "Nuttall"  -> <<95500745, 130834368, 38716983, 3383360>>        \* 0.355768, 0.487396, 0.144232, 0.012604
One28 == 268435456
(* element i (from 0) of the window of n elements *)
CosineWindow(a, n, i) ==
  IF n = 1 THEN One28
  ELSE FoldLeft(LAMBDA s, j :
                  LET t == IF j = 1 THEN a[1] ELSE Mul28(a[j], CosSin(((j - 1) * i) % (n - 1), n - 1)[1])
                  IN IF j % 2 = 1 THEN s + t ELSE s - t, 0, [j \in 1..Len(a) |-> j])
(* 1 - |i - (n-1)/2| / ((n+1)/2) = (n + 1 - |2i - n + 1|) / (n + 1) *)
Triangle(n, i) ==
  LET k == n + 1 - Mag(2 * i - n + 1) IN
  (One28 \div (n + 1)) * k + ((One28 % (n + 1)) * k) \div (n + 1)
Window(name, n, i) == IF name = "Triangle" THEN Triangle(n, i) ELSE CosineWindow(CosineTerms(name), n, i)
Names == {"Triangle", "Hamming", "Hanning", "Blackman", "Nuttall"}
(* frequency-domain coefficients: half of each cosine term on both sides *)
FreqCoeff(name) ==
  LET a == CosineTerms(name)  k == Len(a) - 1 IN
  [j \in 1..(2 * k + 1) |->
     LET d == Mag(j - k - 1) IN
     IF d = 0 THEN a[1] ELSE IF d % 2 = 1 THEN 0 - (a[d + 1] \div 2) ELSE a[d + 1] \div 2]
=============================================================================
