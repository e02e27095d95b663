------------------------------ MODULE RaceTrace -----------------------------
(***************************************************************************)
(* Recorded runs of the real BorIP server, built with the race detector.   *)
(* M is the set of states BorIPServer may be in; a run that departs from   *)
(* it (that is for ServerTrace to judge) leaves M empty.  In none of them  *)
(* may two goroutines of the server be in the same memory without order    *)
(* between them: no state has a step for "race".                           *)
(***************************************************************************)
EXTENDS BorIPServer, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, M
vars == <<l, M>>
Init == l = 1 /\ M = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ e.op # "race"
           /\ M' = IF e.op = "begin" THEN {S0(e.names)} ELSE UNION {Steps(s, e) : s \in M}
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
