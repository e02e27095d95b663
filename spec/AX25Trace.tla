----------------------------- MODULE AX25Trace -----------------------------
(***************************************************************************)
(* Trace specification: runs recorded from the real dsp/ax25 decoders must *)
(* be behaviours of HDLC (with the real constants) and AX25Frame.          *)
(*                                                                         *)
(* Aspect selects which property's observations are constrained:           *)
(*   "H01" nothing is delivered that the specification does not deliver    *)
(*   "H02" everything the specification delivers is delivered, at that     *)
(*         bit, with the content a fresh decoder reported                  *)
(*   "H03"/"H04" delivered content is the decoding of the octets           *)
(*   "H05" delivered frames never change; decoders are independent         *)
(*   "H06" corrupted frames are not delivered                              *)
(***************************************************************************)
EXTENDS AX25Frame, TLC, Json, IOUtils, FiniteSets

K == 6
OctetLen == 8
MaxOctets == 512
INSTANCE HDLC WITH Accept <- AcceptFrame

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT

VARIABLES l,      \* next line of the trace
          rx,     \* decoder id -> receiver state
          held    \* decoder id -> frames it delivered (as recorded then)
vars == <<l, rx, held>>

Upd(f, k, v) == (k :> v) @@ f

Positions(outs) == [i \in 1..Len(outs) |-> outs[i][1]]
Range1(s) == {s[i] : i \in 1..Len(s)}

(* observed deliveries e.out = << <<pos, frame>>, ... >> against the spec's *)
FeedOk(e, outs) ==
  CASE Aspect = "H01" -> Range1(Positions(e.out)) \subseteq Range1(Positions(outs))
    [] Aspect = "H02" -> Range1(Positions(outs)) \subseteq Range1(Positions(e.out))
    [] Aspect \in {"H03", "H04"} ->
         \A i \in 1..Len(e.out) : \A j \in 1..Len(outs) :
           (e.out[i][1] = outs[j][1]
              /\ (IsFlexNet(outs[j][2]) <=> (Aspect = "H04")))
             => e.out[i][2] = Decode(outs[j][2])
    [] OTHER -> TRUE

Init == l = 1 /\ rx = <<>> /\ held = <<>>

New(e) ==
  /\ e.op = "new"
  /\ rx' = Upd(rx, e.d, RxInit)
  /\ held' = Upd(held, e.d, <<>>)

Feed(e) ==
  /\ e.op = "feed"
  /\ (Aspect = "H01" => e.panic = 0)
  /\ LET r == RxRun(rx[e.d], e.bits) IN
       /\ FeedOk(e, r.outs)
       /\ rx' = Upd(rx, e.d, r.s)
       /\ held' = Upd(held, e.d, held[e.d] \o [i \in 1..Len(e.out) |-> e.out[i][2]])

(* A frame that the specification's transmitter sends: the bits are the    *)
(* specification's, the decoder state is arbitrary, ref is what a fresh    *)
(* decoder reported for the same bits.                                     *)
Send(e) ==
  /\ e.op = "send"
  /\ (Aspect = "H01" => e.panic = 0)
  /\ AcceptFrame(e.oct)
  /\ e.bits = (IF e.shared = 1 THEN <<>> ELSE FlagBits)
                 \o Stuff(FrameBits(e.oct)) \o FlagBits
  /\ LET r == RxRun(rx[e.d], e.bits) IN
       /\ r.outs # <<>> /\ r.outs[Len(r.outs)] = <<Len(e.bits), e.oct>>
       /\ FeedOk(e, r.outs)
       /\ (Aspect = "H02" =>
             /\ Len(e.out) > 0
             /\ e.out[Len(e.out)][1] = Len(e.bits)
             /\ Len(e.ref) = 1
             /\ e.out[Len(e.out)][2] = e.ref[1])
       /\ rx' = Upd(rx, e.d, r.s)
       /\ held' = Upd(held, e.d, held[e.d] \o [i \in 1..Len(e.out) |-> e.out[i][2]])

(* every frame delivered so far, read again *)
Again(e) ==
  /\ e.op = "again"
  /\ (Aspect = "H05" => e.frames = held[e.d])
  /\ UNCHANGED <<rx, held>>
(* the same bits fed to this decoder in an interleaving and alone *)
Alone(e) ==
  /\ e.op = "alone"
  /\ (Aspect = "H05" => e.frames = held[e.d])
  /\ UNCHANGED <<rx, held>>

(* Error patterns: every pattern is a set of bit positions of the frame.   *)
Span(p) == IF p = {} THEN 0 ELSE
  (CHOOSE x \in p : \A y \in p : y <= x) - (CHOOSE x \in p : \A y \in p : x <= y) + 1
Detectable(p, n) == /\ p # {} /\ p \subseteq 0..(8 * n - 1)
                    /\ (IF Cardinality(p) <= 3 THEN TRUE ELSE Span(p) <= 16)
FlipBit(oct, n) ==              \* n: 0-based bit, least significant first
  LET i == n \div 8 + 1  w == 2 ^ (n % 8) IN
  [oct EXCEPT ![i] = IF (@ \div w) % 2 = 1 THEN @ - w ELSE @ + w]
Flip(oct, pat) == FoldLeft(FlipBit, oct, pat)    \* pat: distinct bits
Corrupt(e) ==
  /\ e.op = "corrupt"
  /\ AcceptFrame(e.oct)
  /\ \A i \in 1..Len(e.pats) :
       LET p == Range1(e.pats[i]) IN
       /\ Detectable(p, Len(e.oct))
       /\ Cardinality(p) = Len(e.pats[i])
       /\ ~CrcGood(Flip(e.oct, e.pats[i]))
       /\ (Aspect = "H06" => e.delivered[i] = 0)
  /\ Len(e.pats) = Len(e.delivered)
  /\ UNCHANGED <<rx, held>>
(* An exhaustive class of patterns of one frame, counted by the driver.    *)
Choose(n, k) == IF k = 1 THEN n ELSE IF k = 2 THEN (n * (n - 1)) \div 2
                ELSE (((n * (n - 1)) \div 2) * (n - 2)) \div 3
(* bursts of span exactly s at every place: both ends flipped, the s - 2   *)
(* bits between them arbitrary                                             *)
Bursts(n, s) == (n - s + 1) * (IF s = 1 THEN 1 ELSE 2 ^ (s - 2))
(* every bit string of length n before one valid frame *)
PrefixAll(e) ==
  /\ e.op = "prefixall"
  /\ AcceptFrame(e.oct)
  /\ e.cases = 2 ^ e.n
  /\ (Aspect = "H02" => e.delivered = e.cases)
  /\ UNCHANGED <<rx, held>>
CorruptAll(e) ==
  /\ e.op = "corruptall"
  /\ AcceptFrame(e.oct)
  /\ e.cases = (IF e.class = "weight" THEN Choose(8 * Len(e.oct), e.k)
                                      ELSE Bursts(8 * Len(e.oct), e.k))
  /\ (Aspect = "H06" => e.delivered = 0)
  /\ UNCHANGED <<rx, held>>

Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN New(e) \/ Feed(e) \/ Send(e) \/ Again(e) \/ Alone(e)
                          \/ Corrupt(e) \/ CorruptAll(e) \/ PrefixAll(e)
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
