----------------------------- MODULE NamesTrace -----------------------------
(***************************************************************************)
(* What the real package shows:                                            *)
(*   consts   the exported constants' codes                                *)
(*   names    the texts of all 256 codes of one kind                       *)
(*   address  the text of one address                                      *)
(*   frame    the texts of a frame decoded from the octets                 *)
(***************************************************************************)
EXTENDS AX25Names, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Consts(e) ==
  LET t == Tables[e.kind] IN
  /\ Len(e.consts) = Len(t)
  /\ \A i \in 1..Len(t) : \E j \in 1..Len(e.consts) : e.consts[j][1] = t[i][1] /\ e.codes[j] = t[i][2]
Names(e) == Len(e.texts) = 256 /\ \A c \in 0..255 : e.texts[c + 1] = Name(e.kind, c)
Shown(e) == e.text = AddressText([call |-> e.call, ssid |-> e.ssid])
Frame(e) == AcceptFrame(e.oct) /\ e.shown = Describe(Decode(e.oct))
Ok(e) == CASE e.op = "consts" -> Consts(e)
           [] e.op = "names" -> Names(e)
           [] e.op = "address" -> Shown(e)
           [] e.op = "frame" -> Frame(e)
           [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
