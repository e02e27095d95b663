-------------------------------- MODULE HDLC --------------------------------
(***************************************************************************)
(* The AX.25 / HDLC bit-level receiver (dsp/ax25/hdlc.go, AX25.Feed) as a  *)
(* state machine, and, independently of it, the declarative meaning of    *)
(* "delivers a frame at this bit" in terms of the whole bit history, and  *)
(* the transmitter (bit stuffing between flags).                          *)
(*                                                                         *)
(* The constants make the framing parametric so that the relation between *)
(* the machine and the declarative meaning can be model checked over ALL  *)
(* bit histories of a scaled-down link (MC_HDLC), while the trace         *)
(* specification (AX25Trace) uses the real numbers: six ones in a flag,   *)
(* octets of eight bits, at most 512 octets.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

CONSTANTS K,          \* number of ones in a flag (6)
          OctetLen,   \* bits per octet (8)
          MaxOctets,  \* receive buffer size in octets (512)
          Accept(_)   \* is this octet sequence an intact frame?

ASSUME K \in Nat /\ K >= 2 /\ OctetLen \in Nat /\ OctetLen > K + 1 /\ MaxOctets \in Nat \ {0}

Pow2[n \in Nat] == IF n = 0 THEN 1 ELSE 2 * Pow2[n - 1]

RegSize  == Pow2[K + 2]
FlagReg  == Pow2[K + 1] - 2                 \* 0 1^K 0
AbortMod == Pow2[K + 1]                     \* 1^(K+1)
StuffMod == Pow2[K]                         \* 1^(K-1) 0
OctTop   == Pow2[OctetLen - 1]

----------------------------------------------------------------------------
(* The receiver.  reg: the last K+2 bits; on: a flag opened a run that has *)
(* not been aborted; oct: the octets of the run; acc/nb: the octet that is *)
(* being assembled, least significant bit first; out: the octets handed to *)
(* the frame decoder by the last bit (<<>> if none).                       *)
RxInit == [reg |-> 0, on |-> FALSE, oct |-> <<>>, acc |-> 0, nb |-> 0, out |-> <<>>]

IsFlag(reg)  == reg = FlagReg
IsAbort(reg) == reg % AbortMod = AbortMod - 1
IsStuff(reg) == reg % StuffMod = StuffMod - 2

RxFeed(s, bit) ==
  LET reg == (s.reg * 2 + bit) % RegSize IN
  IF IsFlag(reg) THEN
       [reg |-> reg, on |-> TRUE, oct |-> <<>>, acc |-> 0, nb |-> 0,
        out |-> IF s.on /\ Accept(s.oct) THEN s.oct ELSE <<>>]
  ELSE IF IsAbort(reg) THEN [s EXCEPT !.reg = reg, !.on = FALSE, !.out = <<>>]
  ELSE IF ~s.on \/ IsStuff(reg) THEN [s EXCEPT !.reg = reg, !.out = <<>>]
  ELSE LET acc == s.acc \div 2 + bit * OctTop IN
       IF s.nb + 1 < OctetLen
         THEN [s EXCEPT !.reg = reg, !.acc = acc, !.nb = s.nb + 1, !.out = <<>>]
       ELSE IF Len(s.oct) >= MaxOctets
         THEN [s EXCEPT !.reg = reg, !.on = FALSE, !.acc = 0, !.nb = 0, !.out = <<>>]
       ELSE [s EXCEPT !.reg = reg, !.oct = Append(s.oct, acc), !.acc = 0, !.nb = 0, !.out = <<>>]

(* Feed a batch: final state and the deliveries <<position, octets>>.      *)
RxRun(s, bits) ==
  LET step(a, b) ==
        LET n == RxFeed(a.s, b) IN
        [s |-> n, i |-> a.i + 1,
         outs |-> IF n.out = <<>> THEN a.outs ELSE Append(a.outs, <<a.i + 1, n.out>>)]
  IN FoldLeft(step, [s |-> s, i |-> 0, outs |-> <<>>], bits)

----------------------------------------------------------------------------
(* The transmitter.                                                        *)
FlagBits == <<0>> \o [i \in 1..K |-> 1] \o <<0>>
OctetBits(o) == [i \in 1..OctetLen |-> (o \div Pow2[i - 1]) % 2]
FrameBits(octs) == FoldLeft(LAMBDA a, o : a \o OctetBits(o), <<>>, octs)
(* after K-1 ones a zero is inserted *)
Stuff(bits) ==
  LET step(a, b) ==
        IF b = 1 /\ a.n = K - 2 THEN [n |-> 0, out |-> a.out \o <<1, 0>>]
        ELSE [n |-> IF b = 1 THEN a.n + 1 ELSE 0, out |-> Append(a.out, b)]
  IN FoldLeft(step, [n |-> 0, out |-> <<>>], bits).out
Transmit(octs) == FlagBits \o Stuff(FrameBits(octs)) \o FlagBits

----------------------------------------------------------------------------
(* Declarative meaning over a complete bit history h (1-indexed).          *)
EndsFlag(h, i) == i >= K + 2 /\ SubSeq(h, i - K - 1, i) = FlagBits
EndsOnes(h, i, n) == i >= n /\ \A j \in (i - n + 1)..i : h[j] = 1
(* a zero directly after K-1 ones that are not part of K ones or more *)
Stuffed(h, i) == /\ i >= K /\ h[i] = 0
                 /\ EndsOnes(h, i - 1, K - 1)
                 /\ i > K => h[i - K] = 0
LastFlagBefore(h, n) ==
  LET F == {j \in 1..(n - 1) : EndsFlag(h, j)} IN
  IF F = {} THEN 0 ELSE CHOOSE j \in F : \A k \in F : k <= j
(* The bits between the flag that ended at j and the last bit (n) of the   *)
(* closing flag, without stuffed zeros.  It still contains the first K+1  *)
(* bits of the closing flag.                                               *)
Destuff(h, j, n) ==
  FoldLeft(LAMBDA a, i : IF Stuffed(h, i) THEN a ELSE Append(a, h[i]), <<>>,
           [x \in 1..(n - 1 - j) |-> j + x])
Octets(b) ==
  [k \in 1..(Len(b) \div OctetLen) |->
     LET base == (k - 1) * OctetLen
         val[i \in 0..OctetLen] == IF i = 0 THEN 0 ELSE val[i - 1] + b[base + i] * Pow2[i - 1]
     IN val[OctetLen]]
Delivered(h) ==
  LET n == Len(h)
      j == LastFlagBefore(h, n) IN
  IF n = 0 \/ ~EndsFlag(h, n) \/ j = 0 THEN <<>>
  ELSE IF \E i \in (j + 1)..(n - 1) : EndsOnes(h, i, K + 1) THEN <<>>
  ELSE LET o == Octets(Destuff(h, j, n)) IN
       IF Len(o) <= MaxOctets /\ Accept(o) THEN o ELSE <<>>
=============================================================================
