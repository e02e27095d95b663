---------------------------- MODULE MC_AX25Frame ----------------------------
(* Decode is the inverse of an encoder written from the protocol, over a   *)
(* grid of header contents, control octets and repeater counts.  A state   *)
(* is one frame.                                                           *)
EXTENDS AX25Frame, TLC, FiniteSets
VARIABLES fr, phase
vars == <<fr, phase>>

Calls == {<<>>, <<65>>, <<78, 48, 67, 65, 76, 76>>, <<71, 52, 33>>}
Ssids == {0, 7, 15}
(* shifted characters padded with spaces, SSID with reserved bits, C bit,  *)
(* last-address bit                                                        *)
Pad(c) == [i \in 1..6 |-> 2 * (IF i <= Len(c) THEN c[i] ELSE 32)]
EncAddr(a, cbit, last) == Pad(a.call) \o <<128 * cbit + 96 + 2 * a.ssid + last>>
Addrs == [call : Calls, ssid : Ssids]
EncPlain(f) ==
  EncAddr(f.dst, f.cd, 0) \o EncAddr(f.src, f.cs, IF f.reps = <<>> THEN 1 ELSE 0)
  \o FoldLeft(LAMBDA a, i : a \o EncAddr(f.reps[i], 0, IF i = Len(f.reps) THEN 1 ELSE 0),
              <<>>, [i \in 1..Len(f.reps) |-> i])
  \o <<f.ctl>> \o f.rest
SixBits(c) == [i \in 1..6 |-> Bit(c, 6 - i)]
Pack(b) == [k \in 1..(Len(b) \div 8) |->
             LET v[i \in 0..8] == IF i = 0 THEN 0 ELSE 2 * v[i - 1] + b[8 * (k - 1) + i] IN v[8]]
EncFlex(f) ==
  LET g == [i \in 1..6 |-> IF i <= Len(f.dst.call) THEN f.dst.call[i] - 32 ELSE 0]
      b == FoldLeft(LAMBDA a, x : a \o SixBits(x), <<>>, g)
      low == [i \in 1..4 |-> Bit(f.dst.ssid, 4 - i)]
  IN <<17, 4 * 5 + 2 * f.cd + 1>> \o Pack(b \o low) \o <<f.ctl>> \o f.rest

Reps == {<<>>, <<[call |-> <<82>>, ssid |-> 1]>>,
         <<[call |-> <<82>>, ssid |-> 1], [call |-> <<83, 84>>, ssid |-> 2],
           [call |-> <<85>>, ssid |-> 15]>>}
Init == /\ phase = 0
        /\ fr \in [flex : BOOLEAN, dst : Addrs, src : {[call |-> <<65>>, ssid |-> 3], [call |-> <<90, 90, 57>>, ssid |-> 12]},
                   reps : Reps, cd : {0, 1}, cs : {0, 1}, ctl : {0}, rest : {<<>>, <<240>>, <<240, 1, 126, 255>>}]
Next == \E c \in 0..255 : phase = 0 /\ phase' = 1 /\ fr' = [fr EXCEPT !.ctl = c]
Spec == Init /\ [][Next]_vars

RoundTrip ==
  LET o == WithFcs(IF fr.flex THEN EncFlex(fr) ELSE EncPlain(fr))
      d == Decode(o)
      c == fr.ctl
      isI == c % 2 = 0
      isUI == c \in {3, 19}
      body == fr.rest # <<>> /\ (isI \/ isUI)
  IN /\ AcceptFrame(o)
     /\ IsFlexNet(o) = fr.flex
     /\ d.dst.call = fr.dst.call
     /\ d.dst.ssid = (IF fr.flex /\ fr.dst.call = <<>> THEN 0 ELSE fr.dst.ssid)
     /\ d.src = (IF fr.flex THEN NoAddress ELSE fr.src)
     /\ d.reps = (IF fr.flex THEN <<>> ELSE fr.reps)
     /\ d.v1 = (IF ~fr.flex /\ fr.cd = fr.cs THEN 1 ELSE 0)
     /\ d.cmd = (IF fr.flex \/ fr.cd # fr.cs THEN fr.cd ELSE 0)
     /\ (isI <=> d.typ = 0) /\ (c % 4 = 1 <=> d.typ = 1) /\ (c % 4 = 3 <=> d.typ = 2)
     /\ d.pf = (c \div 16) % 2
     /\ (isI => d.ns * 2 + d.pf * 16 + d.nr * 32 = c)
     /\ (d.typ = 1 => d.st + d.pf * 16 + d.nr * 32 = c)
     /\ (d.typ = 2 => d.ut + d.pf * 16 = c)
     /\ (body => <<d.pid>> \o d.info = fr.rest)
     /\ (~body => d.pid = 0 /\ d.info = <<>>)
=============================================================================
