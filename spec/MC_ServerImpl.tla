--------------------------- MODULE MC_ServerImpl ---------------------------
(***************************************************************************)
(* The design of the server: one goroutine per connection, the driver's    *)
(* callback thread of every stream, a mutex per device and one per         *)
(* connection, and a channel whose closing asks a stream to stop.  Every   *)
(* step that can be seen from outside is an event of BorIPServer; M is the *)
(* set of states BorIPServer may be in after the events so far, so that    *)
(* the design refines BorIPServer as long as M is not empty.               *)
(* Fault switches one of the design's precautions off; the configurations  *)
(* with a fault must fail (they show that the invariants have teeth).      *)
(***************************************************************************)
EXTENDS BorIPServer, TLC
CONSTANTS Devs, Conns, MaxHandles, MaxCmds, Cmds, OpenFails, Fault
VARIABLES M, cl, dv, st, panic, ncmd,
          ev         \* the last step, as seen from outside
AllCmds == {<<"DEVICE", "-">>, <<"DEVICE", "!">>, <<"GO", "">>, <<"STOP", "">>}
vars == <<M, cl, dv, st, panic, ncmd, ev>>
Silent == [op |-> "none"]
View == <<M, cl, dv, st, panic, ncmd>>
N == 1..Conns
D == 1..Devs
Dests == <<"d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9">>
Names == SubSeq(<<"A", "B">>, 1, Devs)
Fresh == [pc |-> "none", gone |-> FALSE, w |-> "", k |-> "", chan |-> 0, stopping |-> FALSE, dev |-> 0, list |-> <<>>, at |-> 1, setup |-> 1]
Init == /\ M = {S0(Names)}
        /\ cl = [c \in N |-> Fresh]
        /\ dv = [d \in D |-> [use |-> FALSE, lock |-> 0, h |-> 0]]
        /\ st = <<>>                      \* per handle: the stream, its channel, the callback
        /\ panic = FALSE /\ ncmd = 0 /\ ev = Silent
See(e) == M' = UNION {Steps(s, e) : s \in M} /\ ev' = e
Goto(c, pc) == cl' = [cl EXCEPT ![c].pc = pc]
At(c, pc) == cl[c].pc = pc
Quietly == UNCHANGED M /\ ev' = Silent
Rest == UNCHANGED <<panic, ncmd>>
(* a reply is seen unless the client has gone; the server goes on either way *)
Says(c, t, d, next) ==
  /\ IF cl[c].gone THEN Quietly ELSE See([op |-> "reply", c |-> c, t |-> t, d |-> d])
  /\ cl' = [cl EXCEPT ![c] = [next EXCEPT !.pc = "read", !.w = "", !.k = ""]]

(* ---- the environment *)
Connect(c) == /\ At(c, "none") /\ (\A b \in N : b < c => ~At(b, "none"))
              /\ See([op |-> "conn", dest |-> Dests[c]]) /\ Goto(c, "greet") /\ UNCHANGED <<dv, st>> /\ Rest
Leave(c) == /\ cl[c].pc # "none" /\ ~cl[c].gone
            /\ cl' = [cl EXCEPT ![c].gone = TRUE]
            /\ See([op |-> "disc", c |-> c]) /\ UNCHANGED <<dv, st>> /\ Rest
Ask(c, x) == /\ At(c, "read") /\ ~cl[c].gone /\ ncmd < MaxCmds
             /\ See([op |-> "cmd", c |-> c, w |-> x[1], k |-> x[2], a |-> "", lo |-> "", hi |-> ""])
             /\ cl' = [cl EXCEPT ![c].pc = x[1] \o x[2], ![c].w = x[1], ![c].k = x[2]]
             /\ ncmd' = ncmd + 1 /\ UNCHANGED <<dv, st, panic>>
Deliver_(h) == \E z \in 0..1 :
  /\ st[h].on /\ ~st[h].cb
  /\ st' = [st EXCEPT ![h].cb = TRUE, ![h].nil = (z = 1)]
  /\ See([op |-> "deliver", h |-> h, nil |-> z, buf |-> <<>>, rep |-> 1])
  /\ UNCHANGED <<cl, dv, panic, ncmd>>

(* ---- connections *)
Greet(c) == At(c, "greet") /\ Says(c, <<"DEVICE", "-">>, <<>>, cl[c]) /\ UNCHANGED <<dv, st>> /\ Rest
ReadEnd(c) == At(c, "read") /\ cl[c].gone /\ Goto(c, "stopEnd") /\ Quietly /\ UNCHANGED <<dv, st>> /\ Rest
Streams(c) == cl[c].chan # 0
Move(c, pc) == cl' = [cl EXCEPT ![c].pc = pc]
StopStep(c, from, to) ==
  /\ At(c, from)
  /\ IF Fault # "twice" /\ (cl[c].chan = 0 \/ cl[c].stopping) THEN Move(c, to) /\ UNCHANGED <<panic, st>>
     ELSE IF cl[c].chan = 0 \/ st[cl[c].chan].closed THEN panic' = TRUE /\ UNCHANGED <<cl, st>>
     ELSE /\ cl' = [cl EXCEPT ![c].pc = to, ![c].stopping = TRUE]
          /\ st' = [st EXCEPT ![cl[c].chan].closed = TRUE] /\ UNCHANGED panic
  /\ Quietly /\ UNCHANGED <<dv, ncmd>>
(* STOP: looked up first, closed after *)
StopCmd(c) == /\ At(c, "STOP")
              /\ IF Streams(c) THEN Goto(c, "stopNow") /\ Quietly ELSE Says(c, <<"STOP", "STOPPED">>, <<>>, cl[c])
              /\ UNCHANGED <<dv, st>> /\ Rest
StopNow(c) == StopStep(c, "stopNow", "stopSay")
StopSay(c) == At(c, "stopSay") /\ Says(c, <<"STOP", "OK">>, <<>>, cl[c]) /\ UNCHANGED <<dv, st>> /\ Rest
Hint(c) == At(c, "DEVICEhint") /\ Says(c, <<"DEVICE", "-", "unknown">>, <<>>, cl[c]) /\ UNCHANGED <<dv, st>> /\ Rest
Unknown(c) == At(c, "XYZ") /\ Says(c, <<"XYZ", "UNKNOWN">>, <<>>, cl[c]) /\ UNCHANGED <<dv, st>> /\ Rest
(* DEVICE and the end of the connection: stop, give the device back *)
Dev0(c) == /\ (At(c, "DEVICE-") \/ At(c, "DEVICE!"))
           /\ Goto(c, IF Streams(c) THEN "stopDev" ELSE "back") /\ Quietly /\ UNCHANGED <<dv, st>> /\ Rest
StopDev(c) == StopStep(c, "stopDev", "back")
StopEnd(c) == IF Fault = "noStop" THEN At(c, "stopEnd") /\ Goto(c, "back") /\ Quietly /\ UNCHANGED <<dv, st>> /\ Rest ELSE StopStep(c, "stopEnd", "back")
Back(c) == /\ At(c, "back")
           /\ IF cl[c].dev = 0 THEN Goto(c, IF cl[c].w = "" THEN "done" ELSE IF cl[c].k = "-" THEN "list" ELSE "released") /\ UNCHANGED dv
              ELSE IF Fault = "noClose" /\ cl[c].w = "" THEN Goto(c, "done") /\ UNCHANGED dv
              ELSE /\ dv[cl[c].dev].lock = 0
                   /\ dv' = [dv EXCEPT ![cl[c].dev].lock = c] /\ Goto(c, "closing")
           /\ Quietly /\ UNCHANGED st /\ Rest
Closing(c) == /\ At(c, "closing") /\ See([op |-> "call", f |-> "Close", h |-> dv[cl[c].dev].h, arg |-> ""])
              /\ Goto(c, "closed") /\ UNCHANGED <<dv, st>> /\ Rest
Closed(c) == LET h == dv[cl[c].dev].h IN
             /\ At(c, "closed") /\ ~st[h].on
             /\ See([op |-> "ret", f |-> "Close", h |-> h, err |-> 0, val |-> ""])
             /\ dv' = [dv EXCEPT ![cl[c].dev] = [use |-> FALSE, lock |-> 0, h |-> 0]]
             /\ cl' = [cl EXCEPT ![c].dev = 0, ![c].pc = "back"] /\ UNCHANGED st /\ Rest
Released(c) == At(c, "released") /\ Says(c, <<"DEVICE", "-">>, <<>>, cl[c]) /\ UNCHANGED <<dv, st>> /\ Rest
List(c) ==     \* looks at every device, one lock after another
  /\ At(c, "list")
  /\ IF cl[c].at > Devs THEN cl' = [cl EXCEPT ![c].pc = "pick", ![c].at = 1] /\ UNCHANGED dv
     ELSE /\ dv[cl[c].at].lock = 0
          /\ cl' = [cl EXCEPT ![c].at = @ + 1, ![c].list = IF dv[cl[c].at].use THEN @ ELSE Append(@, cl[c].at)] /\ UNCHANGED dv
  /\ Quietly /\ UNCHANGED st /\ Rest
Pick(c) ==
  /\ At(c, "pick")
  /\ IF cl[c].list = <<>>
     THEN Says(c, <<"DEVICE", "-", "none">>, <<>>, cl[c]) /\ UNCHANGED dv
     ELSE LET d == Head(cl[c].list) IN
          /\ dv[d].lock = 0
          /\ IF dv[d].use /\ Fault # "recheck" THEN cl' = [cl EXCEPT ![c].list = Tail(@)] /\ UNCHANGED dv
             ELSE dv' = [dv EXCEPT ![d].lock = c] /\ Goto(c, "open")
          /\ Quietly
  /\ UNCHANGED st /\ Rest
Open(c) == LET d == Head(cl[c].list) IN
           /\ At(c, "open") /\ See([op |-> "call", f |-> "Open", i |-> d - 1]) /\ Goto(c, "opening") /\ UNCHANGED <<dv, st>> /\ Rest
Opening(c) == LET d == Head(cl[c].list) IN \E e \in (IF OpenFails THEN 0..1 ELSE {0}) :
              /\ At(c, "opening")
              /\ e = 0 => Len(st) < MaxHandles
              /\ See([op |-> "ret", f |-> "Open", i |-> d - 1, err |-> e, h |-> Len(st) + 1])
              /\ IF e = 1 THEN /\ dv' = [dv EXCEPT ![d].lock = 0] /\ cl' = [cl EXCEPT ![c].pc = "pick", ![c].list = Tail(@)] /\ UNCHANGED st
                 ELSE /\ dv' = [dv EXCEPT ![d] = [use |-> TRUE, lock |-> 0, h |-> Len(st) + 1]]
                      /\ cl' = [cl EXCEPT ![c].pc = "setup", ![c].dev = d, ![c].setup = 1, ![c].list = <<>>]
                      /\ st' = Append(st, [on |-> FALSE, closed |-> FALSE, cb |-> FALSE, nil |-> FALSE, c |-> c])
              /\ Rest
Defs == <<<<"SetCenterFreq", "144100000">>, <<"SetSampleRate", "1000000">>, <<"SetAGCMode", "0">>>>
Setup(c) == LET h == dv[cl[c].dev].h IN
            /\ At(c, "setup")
            /\ IF cl[c].setup > 3
               THEN Says(c, <<"DEVICE", "n">>, <<Names[cl[c].dev], "0", "1", "1", "0", "4096", "default">>, [cl[c] EXCEPT !.setup = 1, !.at = 1])
               ELSE /\ See([op |-> "call", f |-> Defs[cl[c].setup][1], h |-> h, arg |-> Defs[cl[c].setup][2]]) /\ Goto(c, "setupRet")
            /\ UNCHANGED <<dv, st>> /\ Rest
SetupRet(c) == LET h == dv[cl[c].dev].h IN
            /\ At(c, "setupRet")
            /\ See([op |-> "ret", f |-> Defs[cl[c].setup][1], h |-> h, err |-> 0, val |-> Defs[cl[c].setup][2]])
            /\ cl' = [cl EXCEPT ![c].pc = "setup", ![c].setup = @ + 1] /\ UNCHANGED <<dv, st>> /\ Rest
(* GO *)
Go(c) == /\ At(c, "GO")
         /\ IF cl[c].dev = 0 THEN Says(c, <<"GO", "DEVICE">>, <<>>, cl[c])
            ELSE IF Streams(c) /\ Fault # "restart" THEN Says(c, <<"GO", "RUNNING">>, <<>>, cl[c])
            ELSE See([op |-> "call", f |-> "ResetBuffer", h |-> dv[cl[c].dev].h, arg |-> ""]) /\ Goto(c, "reset")
         /\ UNCHANGED <<dv, st>> /\ Rest
Reset(c) == LET h == dv[cl[c].dev].h IN \E e \in 0..1 :
            /\ At(c, "reset") /\ See([op |-> "ret", f |-> "ResetBuffer", h |-> h, err |-> e, val |-> ""])
            /\ Goto(c, IF e = 1 THEN "goFail" ELSE "goChan") /\ UNCHANGED <<dv, st>> /\ Rest
GoFail(c) == At(c, "goFail") /\ Says(c, <<"GO", "FAIL">>, <<>>, cl[c]) /\ UNCHANGED <<dv, st>> /\ Rest
(* the channel of handle h is known by h: a handle has one stream at a time *)
GoChan(c) == LET h == dv[cl[c].dev].h IN
             /\ At(c, "goChan") /\ cl' = [cl EXCEPT ![c].pc = "goRead", ![c].chan = h, ![c].stopping = FALSE]
             /\ st' = [st EXCEPT ![h].closed = FALSE] /\ Quietly /\ UNCHANGED dv /\ Rest
GoRead(c) == /\ At(c, "goRead") /\ See([op |-> "call", f |-> "ReadAsync", h |-> dv[cl[c].dev].h, arg |-> ""])
             /\ Goto(c, "goRet") /\ UNCHANGED <<dv, st>> /\ Rest
GoRet(c) == LET h == dv[cl[c].dev].h IN
            /\ At(c, "goRet") /\ ~st[h].on /\ See([op |-> "ret", f |-> "ReadAsync", h |-> h, err |-> 0, val |-> ""])
            /\ st' = [st EXCEPT ![h].on = TRUE] /\ Goto(c, "goOk") /\ UNCHANGED dv /\ Rest
GoOk(c) == At(c, "goOk") /\ Says(c, <<"GO", "OK">>, <<>>, cl[c]) /\ UNCHANGED <<dv, st>> /\ Rest
Conn_(c) == \/ Greet(c) \/ ReadEnd(c) \/ StopCmd(c) \/ StopNow(c) \/ StopSay(c) \/ Hint(c) \/ Unknown(c) \/ Dev0(c) \/ StopDev(c) \/ StopEnd(c)
            \/ Back(c) \/ Closing(c) \/ Closed(c) \/ Released(c) \/ List(c) \/ Pick(c) \/ Open(c) \/ Opening(c) \/ Setup(c) \/ SetupRet(c)
            \/ Go(c) \/ Reset(c) \/ GoFail(c) \/ GoChan(c) \/ GoRead(c) \/ GoRet(c) \/ GoOk(c)

(* ---- the sample callback *)
Callback(h) ==
  LET r == st[h]  c == r.c  ends == r.nil \/ r.closed IN
  /\ r.cb
  /\ st' = [st EXCEPT ![h].cb = FALSE, ![h].on = ~ends, ![h].nil = FALSE]
  /\ cl' = (IF ends /\ cl[c].chan = h THEN [cl EXCEPT ![c].chan = 0, ![c].stopping = FALSE] ELSE cl)
  /\ See([op |-> "cbret", h |-> h, stop |-> IF ends THEN 1 ELSE 0, n |-> 1])
  /\ UNCHANGED <<dv, panic, ncmd>>

Env == \/ \E c \in N : Connect(c) \/ Leave(c) \/ \E x \in Cmds : Ask(c, x)
       \/ \E h \in DOMAIN st : Deliver_(h)
Next == ~panic /\ (Env \/ (\E c \in N : Conn_(c)) \/ \E h \in DOMAIN st : Callback(h))
Spec == Init /\ [][Next]_vars
(* the driver keeps delivering and answering, goroutines keep running *)
Live == Spec /\ (\A c \in N : WF_vars(~panic /\ Conn_(c)))
             /\ (\A h \in 1..MaxHandles : WF_vars(~panic /\ h \in DOMAIN st /\ Callback(h)) /\ WF_vars(~panic /\ h \in DOMAIN st /\ Deliver_(h)))

Refines == M # {}
NoPanic == ~panic
Guarded == \A s \in M : Exclusive(s) /\ StreamHasDevice(s)
Answered_ == \A c \in N : cl[c].w # "" ~> (cl[c].w = "")
Freed == \A c \in N : cl[c].gone ~> (At(c, "done") /\ cl[c].dev = 0)
=============================================================================
