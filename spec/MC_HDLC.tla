------------------------------ MODULE MC_HDLC ------------------------------
(* Scaled-down link: flag 0 1^K 0, octets of OctetLen bits, at most        *)
(* MaxOctets octets, check sequence = last octet is the sum of the others. *)
EXTENDS HDLC, FiniteSets, TLC
CONSTANTS HistLen, FrameLens, ResyncLen

MCAccept(o) == /\ Len(o) >= 2
               /\ LET sum[i \in 0..(Len(o) - 1)] == IF i = 0 THEN 1 ELSE sum[i - 1] + o[i]
                  IN o[Len(o)] = sum[Len(o) - 1] % Pow2[OctetLen]

VARIABLES h, rx
vars == <<h, rx>>
Init == h = <<>> /\ rx = RxInit
Next == /\ Len(h) < HistLen
        /\ \E b \in {0, 1} : h' = Append(h, b) /\ rx' = RxFeed(rx, b)
Spec == Init /\ [][Next]_vars

(* H01: the machine delivers exactly when the history says so (the line    *)
(* counts as zero before the first bit).                                   *)
Agree == rx.out = Delivered(<<0>> \o h)
TypeOK == /\ rx.nb < OctetLen /\ rx.acc < 2 * OctTop
          /\ Len(rx.oct) <= MaxOctets /\ rx.reg < RegSize

Frames == {f \in UNION {[1..n -> 0..(Pow2[OctetLen] - 1)] : n \in FrameLens} : MCAccept(f)}
(* H02: from every reachable state a transmitted frame is delivered at the *)
(* last bit of its closing flag, unchanged, and nothing else is (the       *)
(* opening flag may close an earlier run), also with one shared flag.      *)
Resync ==
  Len(h) <= ResyncLen =>
  \A f \in Frames :
    LET t  == Transmit(f)
        r  == RxRun(rx, t)
        r2 == RxRun(r.s, Stuff(FrameBits(f)) \o FlagBits)
        own == SelectSeq(r.outs, LAMBDA x : x[1] > K + 2)
    IN /\ own = <<<<Len(t), f>>>>
       /\ r2.outs = <<<<Len(t) - (K + 2), f>>>>
(* Stuffing keeps flags and aborts out of the payload.                     *)
NoFlagInside ==
  \A f \in Frames :
    LET s == <<0>> \o Stuff(FrameBits(f)) IN
    \A i \in 1..Len(s) : ~EndsFlag(s, i) /\ ~EndsOnes(s, i, K)
ASSUME NoFlagInside
(* reachability witness, must be violated *)
NeverDelivers == rx.out = <<>>
=============================================================================
