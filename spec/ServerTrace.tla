----------------------------- MODULE ServerTrace -----------------------------
(***************************************************************************)
(* Recorded runs of the real BorIP server with its clients, receiver and   *)
(* datagrams must be behaviours of BorIPServer.  ("begin" starts a run.)   *)
(***************************************************************************)
EXTENDS BorIPServer, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
VARIABLES l, S
vars == <<l, S>>
(* ---- calls of the client library against the server *)
ResOk(x, e) ==
  LET ok == e.err = 0 IN
  CASE e.m = "SelectDevice" /\ x.k = "-" ->
         IF x.dev # 0 THEN /\ ok /\ e.has = 1 /\ x.opened /\ Descriptor(S, x, e.dev) /\ e.dev[8] = "" /\ e.held = e.dev
         ELSE ~ok
    [] e.m = "SelectDevice" /\ x.k = "!" -> ok /\ e.has = 0 /\ x.dev = 0 /\ e.held = <<>>
    [] e.m = "SelectDevice" -> ~ok
    \* the antenna query reads back whatever the server says in place of a name
    [] x.w = "ANTENNA" /\ x.k = "q" /\ x.dev = 0 -> ok => e.vals # <<"default">>
    [] x.w \in NeedDevice /\ x.dev = 0 -> ~ok
    [] x.w \in Numeric /\ x.k = "q" -> IF x.cget = "fail" THEN ~ok ELSE ok /\ e.vals = <<Value(S, x)>>
    [] x.w \in Numeric ->
         IF x.cset = "" THEN FALSE
         ELSE IF Failed(x) THEN ~ok
         ELSE /\ ok
              /\ e.vals = (CASE x.w = "FREQ" -> <<x.a, Value(S, x), "0", "0">> [] x.w = "RATE" -> <<Value(S, x)>> [] OTHER -> <<>>)
    [] x.w = "ANTENNA" -> ok /\ (x.k = "q" => e.vals = <<"default">>)
    [] x.w = "DEST" -> CASE x.k = "q" -> ok /\ e.vals = <<x.dest>>
                         [] x.k = "bad" -> ~ok
                         [] OTHER -> ok /\ e.vals = <<x.a>>
    [] x.w = "HEADER" -> ~ok
    [] x.w = "GO" -> ok = x.started
    [] x.w = "STOP" -> IF ok THEN x.on ELSE x.endable
    [] OTHER -> FALSE
AsReply(e) == [op |-> "reply", c |-> e.c, t |-> IF e.m = "Stop" /\ e.err = 0 THEN <<"STOP", "OK">> ELSE <<>>]
Result(e) ==
  LET x == S.cl[e.c] IN
  IF e.m = "Close" THEN (IF x.dev = 0 THEN {S} ELSE {})       \* everything released
  ELSE IF e.err # 2 /\ x.busy /\ x.call = "" /\ ResOk(x, e) THEN {Answered(S, AsReply(e))} ELSE {}
Dialed(e) == IF e.err = 0 THEN {[S EXCEPT !.cl[e.c].st = "up"]} ELSE {}
All(e) == CASE e.op = "res" -> Result(e) [] e.op = "dialed" -> Dialed(e) [] OTHER -> Steps(S, e)
(* Which rules decide the property at hand; after a departure from another *)
(* one the rest of the run says nothing (Lost).                            *)
Lost == [names |-> <<"lost">>, cl |-> <<>>, hd |-> <<>>, opening |-> {}, settle |-> {}]
(* a driver call that no holder's command accounts for *)
Foreign(e) ==
  \/ e.f \in {"Open", "Close"}
  \/ e.h \notin 1..Len(S.hd)
  \/ (e.h \in 1..Len(S.hd) /\ (~S.hd[e.h].open \/ ~S.cl[S.hd[e.h].c].busy))
Availability(e) == S.cl[e.c].busy /\ S.cl[e.c].w = "DEVICE" /\ S.cl[e.c].dev = 0 /\ S.cl[e.c].k = "-" /\ Cut(e.t, 2) = <<"DEVICE", "-">>
KeptIt(e) == S.cl[e.c].busy /\ S.cl[e.c].w = "DEVICE" /\ S.cl[e.c].dev # 0 /\ S.cl[e.c].k \in {"-", "!"} /\ ~S.cl[e.c].opened
Decides(e) ==
  CASE Aspect = "S01" -> \/ e.op = "call" /\ Foreign(e)
                         \/ e.op = "reply" /\ (Availability(e) \/ KeptIt(e))
                         \/ e.op = "quiet"
    [] Aspect = "S02" -> \/ e.op = "call" /\ (~Foreign(e) \/ e.f \notin {"Open", "Close"})
                         \/ e.op \in {"reply", "crash", "hang", "ret"}
    [] Aspect = "S03" -> e.op \in {"drain", "cbret"}
    [] Aspect = "S04" -> e.op \in {"res", "dialed", "drain", "quiet", "crash", "hang"}
    [] OTHER -> TRUE
(* the run after a departure that another property is about *)
Forgive(e) ==
  CASE e.op = "cbret" -> [S EXCEPT !.hd[e.h].incb = FALSE, !.hd[e.h].async = (e.stop = 0)]
    [] e.op = "drain" -> [S EXCEPT !.hd = [h \in 1..Len(S.hd) |-> [S.hd[h] EXCEPT !.exp = <<>>]]]
    [] e.op = "reply" -> IF S.cl[e.c].st = "up" /\ S.cl[e.c].busy THEN Answered(S, e) ELSE [S EXCEPT !.cl[e.c].st = "up"]
    [] e.op = "call" /\ ~Foreign(e) -> [S EXCEPT !.cl[S.hd[e.h].c].call = e.f]
    [] e.op = "hang" -> S
    [] OTHER -> Lost
Init == l = 1 /\ S = Lost
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           S' \in (IF e.op = "begin" THEN {S0(e.names)}
                   ELSE IF S = Lost THEN {Lost}
                   ELSE LET T == All(e) IN IF T = {} /\ ~Decides(e) THEN {Forgive(e)} ELSE T)
Spec == Init /\ [][Next]_vars
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
