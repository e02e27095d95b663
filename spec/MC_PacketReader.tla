-------------------------- MODULE MC_PacketReader --------------------------
(***************************************************************************)
(* The reader's algorithm (one buffer that is overwritten by each datagram,*)
(* a read position and an end) against PacketStream: whatever the          *)
(* datagrams, receive errors and sizes of the caller's buffers, the        *)
(* returned samples are the stream's, in order, none missing, none twice.  *)
(***************************************************************************)
EXTENDS PacketStream, TLC
CONSTANTS MaxDatagrams, MaxLen, MaxRead, Headers
VARIABLES buf, bi, bn,    \* receive buffer (stale octets included), position, end
          hdr,            \* last header
          stream,         \* ghost: pairs of the datagrams received so far, with their header
          ret,            \* ghost: pairs returned, with the header reported
          nd, last        \* datagrams used, outcome of the last read
vars == <<buf, bi, bn, hdr, stream, ret, nd, last>>
Datagrams == {[i \in 1..n |-> 10 * (nd + 1) + i] : n \in 0..MaxLen}
NoHeader == <<0, 0, 0>>
Init == /\ buf = [i \in 1..MaxLen |-> 255] /\ bi = 0 /\ bn = 0 /\ hdr = NoHeader
        /\ stream = <<>> /\ ret = <<>> /\ nd = 0 /\ last = "none"
Min(a, b) == IF a <= b THEN a ELSE b
(* return up to n pairs from position i, end e of buffer b under header h *)
Deliver(b, i, e, h, n) ==
  LET k == Min(n, (e - i) \div 4) IN
  /\ ret' = ret \o [j \in 1..k |-> <<Pair(SubSeq(b, i + 1, e), j), h>>]
  /\ bi' = i + 4 * k
  /\ bn' = e
Receive(d, n) ==
  LET b == [i \in 1..MaxLen |-> IF i <= Len(d) THEN d[i] ELSE buf[i]]
      start == IF Headers THEN HeaderSize ELSE 0 IN
  /\ buf' = b
  /\ nd' = nd + 1
  /\ IF IsShort(d, Headers)
       THEN /\ bi' = 0 /\ bn' = 0 /\ last' = "short" /\ UNCHANGED <<hdr, stream, ret>>
       ELSE LET h == IF Headers THEN HeaderOf(d) ELSE NoHeader
                e == Len(d) - ((Len(d) - start) % 4) IN
            /\ hdr' = h
            /\ stream' = stream \o [j \in 1..Len(Pairs(d, Headers)) |-> <<Pairs(d, Headers)[j], h>>]
            /\ Deliver(b, start, e, h, n)
            /\ last' = "ok"
Read(n) ==
  IF bi < bn
    THEN /\ Deliver(buf, bi, bn, hdr, n) /\ last' = "ok" /\ UNCHANGED <<buf, hdr, stream, nd>>
    ELSE /\ nd < MaxDatagrams
         /\ \/ \E d \in Datagrams : Receive(d, n)
            \/ nd' = nd + 1 /\ last' = "error" /\ UNCHANGED <<buf, bi, bn, hdr, stream, ret>>
Next == \E n \in 0..MaxRead : Read(n)
Spec == Init /\ [][Next]_vars

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Once == IsPrefix(ret, stream)
NothingLost == bi >= bn => ret = stream
Whole == bn >= bi /\ (bn - bi) % 4 = 0
ErrorsKeep == [][last' \in {"short", "error"} => ret' = ret /\ hdr' = hdr]_vars
=============================================================================
