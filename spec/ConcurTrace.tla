---------------------------- MODULE ConcurTrace -----------------------------
(***************************************************************************)
(* What the real code did, alone and together (module Concurrent).         *)
(*  alone     the outputs of an instance used on its own: its Alone(h)     *)
(*  together  the outputs of the same instance, with the same inputs,      *)
(*            while others were in use                                     *)
(*  common    several goroutines with the same input slices at once, each  *)
(*            with calls and objects of its own; kept: the inputs are      *)
(*            still what they were                                         *)
(* A run in which two goroutines touched the same memory without order     *)
(* between them ("race") is no behaviour of Concurrent.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          last       \* the instance used last: [id, outs]
vars == <<l, last>>
Init == l = 1 /\ last = [id |-> 0, outs |-> <<>>]
AloneEv(e) == last' = [id |-> e.id, outs |-> e.outs]
Together(e) == e.id = last.id /\ e.outs = last.outs /\ UNCHANGED last
Common(e) == e.kept = 1 /\ (\A i \in 1..Len(e.runs) : e.runs[i] = e.alone) /\ UNCHANGED last
Step(e) ==
  CASE e.op = "alone" -> AloneEv(e)
    [] e.op = "together" -> Together(e)
    [] e.op = "common" -> Common(e)
    [] OTHER -> FALSE
Next == /\ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
