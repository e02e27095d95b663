----------------------------- MODULE MC_Windows -----------------------------
(* The windows as specified: symmetric, bounded, rising to the middle.      *)
EXTENDS Windows, TLC
CONSTANTS MaxLen
VARIABLES name, n
Init == name \in Names /\ n = 1
Next == n < MaxLen /\ n' = n + 1 /\ UNCHANGED name
Spec == Init /\ [][Next]_<<name, n>>
W == [i \in 0..(n - 1) |-> Window(name, n, i)]
Small == 268                          \* 10^-6
Symmetric == LET w == W IN \A i \in 0..(n - 1) : Mag(w[i] - w[n - 1 - i]) <= 256
Bounded == LET w == W IN \A i \in 0..(n - 1) : w[i] >= 0 - Small /\ w[i] <= One28 + Small
Rising == LET w == W IN \A i \in 0..(n - 2) : i < n - 2 - i => w[i] <= w[i + 1] + 256
Peak == n % 2 = 1 => Mag(W[(n - 1) \div 2] - One28) <= 256
ASSUME \A nm \in {"Hamming", "Hanning", "Blackman", "Nuttall"} :
         LET f == FreqCoeff(nm) IN \A i \in 1..Len(f) : f[i] = f[Len(f) + 1 - i]
=============================================================================
