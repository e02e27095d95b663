---------------------------- MODULE MC_Spectral -----------------------------
(* The second-order resonator and the sliding recurrence give the DFT, in   *)
(* the exact rings of 1, 2, 3, 4 and 6 point bins, for every history.       *)
EXTENDS Spectral, TLC
CONSTANTS Values, Blocks, MaxSteps
(* the block size is a multiple of the order of t, so t^blockSize = 1 *)
VARIABLES c, h, q, all, ring, pos, s, out
vars == <<c, h, q, all, ring, pos, s, out>>
N == Blocks * Order(c)
Init == /\ c \in -2..2 /\ h = <<>> /\ q = <<0, 0>> /\ all = <<>>
        /\ pos = 0 /\ ring = [i \in 0..(Blocks * Order(c) - 1) |-> 0] /\ s = <<0, 0>> /\ out = <<0, 0>>
Feed(x) ==
  /\ Len(all) < MaxSteps
  /\ all' = Append(all, x)
  /\ IF Len(h) = N THEN h' = <<x>> /\ q' = GoertzelStep(<<0, 0>>, x, c)     \* Reset after a block
     ELSE h' = Append(h, x) /\ q' = GoertzelStep(q, x, c)
  /\ \E p \in {(pos + 1) % N} : \E v \in {RTimes(RAdd(s, <<x - ring[p], 0>>), c)} :
       pos' = p /\ ring' = [ring EXCEPT ![p] = x] /\ s' = v /\ out' = v
  /\ UNCHANGED c
Reset == h # <<>> /\ h' = <<>> /\ q' = <<0, 0>> /\ UNCHANGED <<c, all, ring, pos, s, out>>
Next == (\E x \in Values : Feed(x)) \/ Reset
Spec == Init /\ [][Next]_vars
BlockDFT == Len(h) = N => /\ Canon(GoertzelOut(q), c) = Canon(RDFT(h, c), c)
                          /\ GoertzelMag(q, c) = RNorm(RDFT(h, c), c)
(* a partial block: the DFT of the samples up to a rotation *)
Partial == GoertzelMag(q, c) = RNorm(RDFT(h, c), c)
Sliding == all # <<>> => Canon(out, c) = Canon(RDFT(NewestOf([i \in 1..N |-> 0] \o all, N), c), c)
(* the fixed point transform agrees with the exact ring where t is 1, -1 or i *)
Pairs(x) == [i \in 1..Len(x) |-> <<x[i], 0>>]
Fixed == c \in {2, -2, 0} =>
  LET e == RDFT(h, c)
      d == DFT(Pairs(h), Twiddles(N \div Order(c), N, 10), N)
  IN d = CASE c = 0 -> <<1024 * e[1], 1024 * e[2]>>
           [] c = 2 -> <<1024 * (e[1] + e[2]), 0>>
           [] c = -2 -> <<1024 * (e[1] - e[2]), 0>>
=============================================================================
