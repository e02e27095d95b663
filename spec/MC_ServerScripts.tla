-------------------------- MODULE MC_ServerScripts --------------------------
(***************************************************************************)
(* Behaviours of the server's design, chosen at random by TLC's simulator, *)
(* written out as the order in which clients and driver act.  The          *)
(* conformance check lets clients and driver act in that order against the *)
(* real server.                                                            *)
(***************************************************************************)
EXTENDS MC_ServerImpl, Json
CONSTANTS Length, AtOnce
VARIABLE script
InitS == Init /\ script = <<>>
Acts == {"conn", "disc", "cmd", "ret", "deliver"}
(* mostly commands that lead somewhere *)
Useful(x, e) == IF x.dev = 0 THEN e.w = "DEVICE" /\ e.k = "-" ELSE IF x.chan = 0 THEN e.w = "GO" ELSE e.w # "GO"
NextS == /\ Len(script) < Length /\ Next
         /\ (ev'.op = "disc" => Len(script) % 9 = 8)          \* not too often
         /\ (ev'.op = "conn" => Cardinality({c \in N : cl[c].pc # "none" /\ ~cl[c].gone}) < AtOnce)
         /\ (ev'.op = "cmd" => (Len(script) + ncmd) % 4 = 0 \/ Useful(cl[ev'.c], ev'))
         /\ (ev'.op = "ret" => ev'.err = 0 \/ Len(script) % 4 = 0)
         /\ script' = (IF ev'.op \in Acts THEN Append(script, ev') ELSE script)
SpecS == InitS /\ [][NextS]_<<vars, script>>
Emit == Len(script) = Length => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
