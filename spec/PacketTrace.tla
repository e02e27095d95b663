----------------------------- MODULE PacketTrace ----------------------------
(***************************************************************************)
(* Reads of a real PacketReader.  e.got are the datagrams and errors that  *)
(* the connection handed out during the call: <<octets, error text>>.      *)
(*  "P01" samples: exactly the received stream, in order, whole, within    *)
(*        the caller's slice                                               *)
(*  "P02" headers and errors belong to their own datagrams                 *)
(***************************************************************************)
EXTENDS PacketStream, SequencesExt, TLC, Json, IOUtils
Trace  == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
VARIABLES l, hdrs, due,   \* pairs received and not yet returned, each <<pair, header>>
          hdr             \* header last reported
vars == <<l, hdrs, due, hdr>>
Init == l = 1 /\ hdrs = FALSE /\ due = <<>> /\ hdr = <<0, 0, 0>>

New(e) == hdrs' = (e.headers = 1) /\ due' = <<>> /\ hdr' = <<0, 0, 0>>
Data(g) == g[2] = ""
Received(g) ==
  IF ~Data(g) THEN <<>> ELSE
  LET p == Pairs(g[1], hdrs) IN
  [j \in 1..Len(p) |-> <<p[j], IF hdrs THEN HeaderOf(g[1]) ELSE <<0, 0, 0>>>>]
Arrived(gs) == FoldLeft(LAMBDA a, g : a \o Received(g), <<>>, gs)
LastGot(e) == e.got[Len(e.got)]
Outcome(e) ==
  IF e.got = <<>> THEN e.err = ""
  ELSE IF ~Data(LastGot(e)) THEN e.err = "recv"
  ELSE IF IsShort(LastGot(e)[1], hdrs) THEN e.err = "short"
  ELSE e.err = ""
(* errors of datagrams before the last one would have been swallowed *)
NoneSwallowed(e) == \A i \in 1..(Len(e.got) - 1) : Data(e.got[i]) /\ ~IsShort(e.got[i][1], hdrs)
HeaderOk(e, all) ==
  IF ~hdrs THEN TRUE
  ELSE IF e.err # "" THEN e.hdr = hdr /\ e.n = 0
  ELSE IF e.n > 0 /\ e.n <= Len(all) THEN e.hdr = all[e.n][2]
  ELSE IF e.n > 0 THEN FALSE
  ELSE IF e.got # <<>> THEN e.hdr = HeaderOf(LastGot(e)[1])
  ELSE e.hdr = hdr
(* a datagram of whole pairs read in one go: as many samples as it carries *)
WholeRead(e) ==
  IF due = <<>> /\ Len(e.got) = 1
    THEN LET d == e.got[1][1]  k == Len(Pairs(d, hdrs)) IN
         IF e.err = "" /\ e.size >= k /\ Len(Payload(d, hdrs)) % 4 = 0 THEN e.n = k ELSE TRUE
    ELSE TRUE
(* the flags a caller finds in the reported header *)
FlagsOk(e) ==
  e.flags = [i \in 1..7 |->
    IF HasFlag(e.hdr[1], <<FlagBit.HardwareOverrun, FlagBit.NetworkOverrun, FlagBit.BufferOverrun, FlagBit.EmptyPayload,
                           FlagBit.StreamStart, FlagBit.BufferUnderrun, FlagBit.HardwareTimeout>>[i]) THEN 1 ELSE 0]
(* all: what has been received and not returned before this call *)
SamplesOk(e, all) ==
  /\ e.panic = 0
  /\ e.outside = 0
  /\ e.n <= e.size /\ e.n <= Len(all) /\ e.n >= 0
  /\ e.iq = [i \in 1..e.n |-> all[i][1]]
  /\ (e.n = 0 /\ e.size > 0 => all = <<>> /\ e.got # <<>>)   \* it asked for more
ReadWith(e, all) ==
  /\ (Aspect = "P01" => SamplesOk(e, all))
  /\ (Aspect = "P02" =>
        /\ e.panic = 0
        /\ Outcome(e) /\ NoneSwallowed(e) /\ HeaderOk(e, all) /\ FlagsOk(e) /\ WholeRead(e))
  /\ due' = IF e.n >= 0 /\ e.n <= Len(all) THEN SubSeq(all, e.n + 1, Len(all)) ELSE <<>>
  /\ hdr' = e.hdr
  /\ UNCHANGED hdrs
Read(e) == \E all \in {due \o Arrived(e.got)} : ReadWith(e, all)
Drained(e) == (Aspect = "P01" => due = <<>>) /\ UNCHANGED <<hdrs, due, hdr>>
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
       IF e.op = "new" THEN New(e) ELSE IF e.op = "read" THEN Read(e) ELSE Drained(e)
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
