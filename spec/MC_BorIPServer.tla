--------------------------- MODULE MC_BorIPServer ---------------------------
(***************************************************************************)
(* BorIPServer with few clients and devices and every allowed behaviour of *)
(* clients, driver and server.                                             *)
(***************************************************************************)
EXTENDS BorIPServer, TLC
CONSTANTS MaxDevices, MaxConns, MaxHandles, MaxDelivers, Cmds
VARIABLES S, n
vars == <<S, n>>
Names == SubSeq(<<"A", "B">>, 1, MaxDevices)
Init == S = S0(Names) /\ n = 0
NC == 1..Len(S.cl)
NH == 1..Len(S.hd)
Dests == <<"d1", "d2", "d3", "d4">>
Asked(w, k) == [op |-> "cmd", w |-> w, k |-> k, a |-> "7", lo |-> "7", hi |-> "7"]
CmdSet == {x \in {Asked("DEVICE", "-"), Asked("DEVICE", "!"), Asked("DEVICE", "hint"), Asked("GO", ""), Asked("STOP", ""),
                  Asked("FREQ", "q"), Asked("FREQ", "num"), Asked("DEST", "q"), Asked("XYZ", "")} : x.w \in Cmds}
At(r, c) == r @@ [c |-> c]
Replies(c) ==
  LET x == S.cl[c] IN
  {[op |-> "reply", c |-> c, t |-> t, d |-> d] :
     t \in {<<x.w, "-">>, <<x.w, "DEVICE">>, <<x.w, "OK">>} \cup
           (CASE x.w = "DEVICE" -> {<<x.w, "-", "no">>}
              [] x.w = "GO" -> {<<x.w, "RUNNING">>, <<x.w, "FAIL">>}
              [] x.w = "STOP" -> {<<x.w, "STOPPED">>}
              [] x.w = "DEST" -> {<<x.w, x.dest>>}
              [] x.w = "FREQ" -> {<<x.w, "7">>, <<x.w, "144100000">>, <<x.w, "OK", "7", "7">>, <<x.w, "FAIL">>}
              [] x.w = "" -> {<<"DEVICE", "-">>}
              [] OTHER -> {<<x.w, "UNKNOWN">>}),
     d \in IF x.w = "DEVICE" /\ x.dev # 0 THEN {<<S.names[S.hd[x.dev].i + 1], "0", "1", "1", "0", "4096", "default">>} ELSE {<<>>}}
(* a new device is set up in one order here *)
Setup(h) == CASE "SetCenterFreq" \notin S.hd[h].init -> {<<"SetCenterFreq", "144100000">>}
              [] "SetSampleRate" \notin S.hd[h].init -> {<<"SetSampleRate", "1000000">>}
              [] "SetAGCMode" \notin S.hd[h].init -> {<<"SetAGCMode", "0">>}
              [] OTHER -> {}
CallsFor(h) ==
  LET x == S.cl[S.hd[h].c] IN
  {<<"Close", "">>} \cup (CASE x.opened -> Setup(h)
                           [] x.w = "GO" -> (IF x.reset = "" THEN {<<"ResetBuffer", "">>} ELSE {<<"ReadAsync", "">>})
                           [] x.w = "FREQ" /\ x.k = "num" /\ x.cset = "" -> {<<"SetCenterFreq", "7">>}
                           [] x.w = "FREQ" /\ x.cget = "" -> {<<"GetCenterFreq", "">>}
                           [] OTHER -> {})
DriverCalls ==
  {[op |-> "call", f |-> "Open", i |-> i] : i \in Devices(S)}
  \cup UNION {{[op |-> "call", f |-> f[1], h |-> h, arg |-> f[2]] : f \in CallsFor(h)} :
               h \in {h \in NH : S.hd[h].open /\ S.cl[S.hd[h].c].call = ""}}
Rets ==
  {[op |-> "ret", f |-> "Open", i |-> p[2], err |-> e, h |-> Len(S.hd) + 1] : p \in S.opening, e \in 0..1}
  \cup {[op |-> "ret", f |-> S.cl[S.hd[h].c].call, h |-> h, err |-> 0,
         val |-> IF S.cl[S.hd[h].c].call = "SetCenterFreq" /\ S.cl[S.hd[h].c].opened THEN "144100000" ELSE "7"] :
           h \in {h \in NH : S.hd[h].open /\ S.cl[S.hd[h].c].call \notin {"", "Open"} /\ S.cl[S.hd[h].c].dev = h
                             /\ (S.cl[S.hd[h].c].call = "Close" => ~S.hd[h].async)}}
ServerEvents ==
  (UNION {Replies(c) : c \in {c \in NC : (S.cl[c].busy \/ S.cl[c].st = "greet") /\ S.cl[c].st # "gone" /\ S.cl[c].call = ""}}) \cup DriverCalls
  \cup {[op |-> "cbret", h |-> h, stop |-> s, n |-> 1] : h \in {h \in NH : S.hd[h].incb}, s \in 0..1}
EnvEvents ==
  (IF Len(S.cl) < MaxConns THEN {[op |-> "conn", dest |-> Dests[Len(S.cl) + 1]]} ELSE {})
  \cup {[op |-> "disc", c |-> c] : c \in {c \in NC : S.cl[c].st \in {"greet", "up"}}}
  \cup {At(x, c) : x \in {x \in CmdSet : x.w # "DEVICE" \/ x.k # "-" \/ Len(S.hd) < MaxHandles},
                   c \in {c \in NC : S.cl[c].st = "up" /\ ~S.cl[c].busy}}
  \cup Rets
  \cup {[op |-> "deliver", h |-> h, nil |-> z, buf |-> <<1, 2>>, rep |-> 1] :
          h \in {h \in NH : S.hd[h].async /\ ~S.hd[h].incb /\ S.hd[h].exp = <<>>}, z \in 0..1}
  \cup {[op |-> "settled"]}
(* what a correct network delivers *)
Drained == [op |-> "drain", dead |-> <<>>,
            got |-> LET RECURSIVE All(_)
                        All(h) == IF h > Len(S.hd) THEN <<>>
                                  ELSE (IF S.hd[h].exp = <<>> THEN <<>>
                                        ELSE <<[to |-> S.hd[h].dest, flags |-> IF S.hd[h].seq = 0 THEN 16 ELSE 0, note |-> 0, seq |-> S.hd[h].seq % 65536,
                                                b |-> [j \in 1..(2 * Len(S.hd[h].exp)) |-> Signed(S.hd[h].exp[(j + 1) \div 2])]]>>) \o All(h + 1)
                    IN All(1)]
Events == ServerEvents \cup EnvEvents \cup (IF Due(S) # {} THEN {Drained} ELSE {})
Next == \E e \in Events : \E T \in Steps(S, e) :
          /\ T # S /\ S' = T
          /\ n' = (IF e.op = "deliver" THEN n + 1 ELSE n)
          /\ n' <= MaxDelivers
          /\ Len(T.hd) <= MaxHandles
Spec == Init /\ [][Next]_vars

Exclusives == Exclusive(S) /\ HolderKnows(S) /\ StreamHasDevice(S)
(* a held device has a holder that is connected, or about to give it back *)
NeverLost == \A h \in NH : S.hd[h].open =>
  LET c == S.hd[h].c IN S.cl[c].st = "gone" => S.cl[c].call # "" \/ (\E e \in {[op |-> "call", f |-> "Close", h |-> h, arg |-> ""]} : Steps(S, e) # {})
(* whoever waits for a reply gets one: the server is never left without an allowed event *)
Waits(c) == S.cl[c].busy /\ S.cl[c].st = "up" /\ S.cl[c].call = ""
NeverStuck == \A c \in NC : Waits(c) =>
  \E e \in ServerEvents :
    /\ \/ e.op = "reply" /\ e.c = c
       \/ e.op = "call" /\ e.f # "Open" /\ S.hd[e.h].c = c
       \/ e.op = "call" /\ e.f = "Open"
       \/ e.op = "cbret"
    /\ Steps(S, e) # {}
(* once stopped for good, a stream sends nothing *)
StoppedStaysSilent == \A h \in NH : (S.hd[h].async /\ S.hd[h].s = "stop" /\ S.hd[h].incb /\ S.hd[h].at = "stop" /\ ~S.hd[h].nil)
  => Steps(S, [op |-> "cbret", h |-> h, stop |-> 0, n |-> 1]) = {}
=============================================================================
