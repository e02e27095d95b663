----------------------------- MODULE AX25Frame -----------------------------
(***************************************************************************)
(* What the octets of an AX.25 frame mean: frame check sequence, ordinary  *)
(* header, FlexNet compressed header, control octet, PID and information.  *)
(* Written from the protocol, not from dsp/ax25: the check sequence is the *)
(* bitwise CRC-CCITT (reflected polynomial 16#8408), not a table.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Bit(o, i) == (o \div (2 ^ i)) % 2

(* one CRC bit step, eight of them, and the table they generate *)
CrcStep(c) == IF c % 2 = 1 THEN (c \div 2) ^^ 33800 ELSE c \div 2
RECURSIVE CrcSteps(_, _)
CrcSteps(c, n) == IF n = 0 THEN c ELSE CrcSteps(CrcStep(c), n - 1)
CrcTab == [b \in 0..255 |-> CrcSteps(b, 8)]
CrcByte(c, b) == (c \div 256) ^^ CrcTab[(c % 256) ^^ b]
CrcOver(init, octs) == FoldLeft(CrcByte, init, octs)
Residue == 61624                                          \* 16#F0B8
CrcGood(octs) == CrcOver(65535, octs) = Residue
(* the two octets to append to a body *)
Fcs(body) == LET c == 65535 - CrcOver(65535, body) IN <<c % 256, c \div 256>>
WithFcs(body) == body \o Fcs(body)

IsFlexNet(octs) == octs[2] % 2 = 1
(* H01: an intact frame *)
MinPlain == 17
MinFlex  == 10
AcceptFrame(octs) ==
  /\ Len(octs) >= MinFlex
  /\ (~IsFlexNet(octs) => Len(octs) >= MinPlain)
  /\ CrcGood(octs)

----------------------------------------------------------------------------
(* An address: six shifted characters, up to the first space, and an SSID  *)
Upto(s, c) ==                     \* prefix of s before the first c
  IF \E i \in 1..Len(s) : s[i] = c
    THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c) - 1)
    ELSE s
Address(octs, o) ==              \* the seven octets from position o (1-based)
  [call |-> Upto([i \in 1..6 |-> octs[o + i - 1] \div 2], 32),
   ssid |-> (octs[o + 6] \div 2) % 16]

NoAddress == [call |-> <<>>, ssid |-> 0]

(* Repeaters follow while the previous address does not carry the          *)
(* last-address bit and at least one octet remains after the next address. *)
RECURSIVE NReps(_, _)
NReps(body, o) ==                \* o: octets consumed so far
  IF body[o] % 2 = 0 /\ Len(body) - o > 7 THEN 1 + NReps(body, o + 7) ELSE 0

(* control octet, PID, info from rest (at least one octet) *)
UIType == 3
ControlPart(rest) ==
  LET c    == rest[1]
      more == Len(rest) > 1
      typ  == IF c % 2 = 0 THEN 0 ELSE IF Bit(c, 1) = 1 THEN 2 ELSE 1   \* I, U, S
      ut   == c - 16 * Bit(c, 4)
      info == more /\ (typ = 0 \/ (typ = 2 /\ ut = UIType))
  IN [typ |-> typ,
      pf  |-> Bit(c, 4),
      ns  |-> IF typ = 0 THEN (c \div 2) % 8 ELSE 0,
      nr  |-> IF typ \in {0, 1} THEN c \div 32 ELSE 0,
      ut  |-> IF typ = 2 THEN ut ELSE 0,
      st  |-> IF typ = 1 THEN c % 16 ELSE 0,
      pid |-> IF info THEN rest[2] ELSE 0,
      info |-> IF info THEN SubSeq(rest, 3, Len(rest)) ELSE <<>>]

PlainHeader(body) ==
  LET n == NReps(body, 14)
      same == Bit(body[7], 7) = Bit(body[14], 7)
  IN [dst  |-> Address(body, 1), src |-> Address(body, 8),
      reps |-> [i \in 1..n |-> Address(body, 15 + 7 * (i - 1))],
      v1   |-> IF same THEN 1 ELSE 0,
      cmd  |-> IF same THEN 0 ELSE Bit(body[7], 7),
      used |-> 14 + 7 * n]

(* six 6-bit groups packed into octets 3..7, high bits first *)
FlexBits(body) == FoldLeft(LAMBDA a, o : a \o [i \in 1..8 |-> Bit(o, 8 - i)], <<>>,
                           SubSeq(body, 3, 7))
FlexGroup(body, k) ==
  LET b == FlexBits(body) IN
  32 * b[6*k - 5] + 16 * b[6*k - 4] + 8 * b[6*k - 3] + 4 * b[6*k - 2] + 2 * b[6*k - 1] + b[6*k]
FlexHeader(body) ==
  LET call == SelectSeq([k \in 1..6 |-> FlexGroup(body, k) + 32], LAMBDA c : c # 32)
  IN [dst  |-> IF call = <<>> THEN NoAddress ELSE [call |-> call, ssid |-> body[7] % 16],
      src  |-> NoAddress, reps |-> <<>>,
      v1   |-> 0, cmd |-> Bit(body[2], 1), used |-> 7]

Decode(octs) ==
  LET body == SubSeq(octs, 1, Len(octs) - 2)
      hdr  == IF IsFlexNet(octs) THEN FlexHeader(body) ELSE PlainHeader(body)
      ctl  == ControlPart(SubSeq(body, hdr.used + 1, Len(body)))
  IN [dst |-> hdr.dst, src |-> hdr.src, reps |-> hdr.reps, v1 |-> hdr.v1, cmd |-> hdr.cmd,
      typ |-> ctl.typ, pf |-> ctl.pf, ns |-> ctl.ns, nr |-> ctl.nr, ut |-> ctl.ut,
      st  |-> ctl.st, pid |-> ctl.pid, info |-> ctl.info]
=============================================================================
