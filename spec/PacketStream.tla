---------------------------- MODULE PacketStream ----------------------------
(* What datagrams of a BorIP stream mean. A datagram is a sequence of      *)
(* octets; with headers the first four are flags, notification and the     *)
(* little-endian sequence number.                                          *)
EXTENDS Integers, Sequences
HeaderSize == 4
S16(lo, hi) == LET u == lo + 256 * hi IN IF u >= 32768 THEN u - 65536 ELSE u
Payload(d, hdrs) == IF hdrs THEN SubSeq(d, HeaderSize + 1, Len(d)) ELSE d
IsShort(d, hdrs) == hdrs /\ Len(d) < HeaderSize
Pair(p, i) == <<S16(p[4 * i - 3], p[4 * i - 2]), S16(p[4 * i - 1], p[4 * i])>>
Pairs(d, hdrs) == IF IsShort(d, hdrs) THEN <<>>
                  ELSE LET p == Payload(d, hdrs) IN [i \in 1..(Len(p) \div 4) |-> Pair(p, i)]
HeaderOf(d) == <<d[1], d[2], d[3] + 256 * d[4]>>
(* flag bits: hardware, network and buffer overrun, empty payload, start    *)
(* and end of the stream, buffer underrun, hardware timeout                *)
FlagBit == [HardwareOverrun |-> 1, NetworkOverrun |-> 2, BufferOverrun |-> 4, EmptyPayload |-> 8,
            StreamStart |-> 16, StreamEnd |-> 32, BufferUnderrun |-> 64, HardwareTimeout |-> 128]
HasFlag(flags, bit) == (flags \div bit) % 2 = 1
=============================================================================
