----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Independent instances used at the same time: decoders, filters,         *)
(* detectors, readers, clients and plain calls, each with a state of its   *)
(* own, each used by one goroutine; the inputs may be common to several.   *)
(*                                                                         *)
(* What an instance delivers is a function of its own history alone:       *)
(* Alone(history).  The instances below take the elements of their inputs  *)
(* in small steps, so that every interleaving of the accesses to memory    *)
(* is a behaviour.  Design is what an implementation might do:             *)
(*   "own"      scratch memory belongs to the instance       (the contract)*)
(*   "package"  scratch memory is common to all instances                  *)
(*   "lazy"     a common table is filled by the first that finds it empty  *)
(*   "borrow"   the input is changed and put back                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Instances, Inputs, MaxCalls, Design

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Gain == 3                       \* what the table holds
(* one call: the running sum of the instance goes on with every element *)
RECURSIVE Outs(_, _)
Outs(acc, in) == IF in = <<>> THEN <<>>
                 ELSE <<acc + Gain * in[1]>> \o Outs(acc + Gain * in[1], Tail(in))
RECURSIVE Flat(_)
Flat(h) == IF h = <<>> THEN <<>> ELSE h[1] \o Flat(Tail(h))
Alone(h) == Outs(0, Flat(h))

VARIABLES mem,       \* the inputs, common to all
          scratch,   \* instance -> value; instance 0: the package's
          table,     \* [ready, value]
          inst       \* instance -> [pc, in, at, acc, hist, outs]
vars == <<mem, scratch, table, inst>>
All == 1..Instances
Cell(i) == IF Design = "package" THEN 0 ELSE i
Idle == [pc |-> "idle", in |-> 1, at |-> 1, acc |-> 0, hist |-> <<>>, outs |-> <<>>]
Init == /\ mem = Inputs
        /\ scratch = [i \in 0..Instances |-> 0]
        /\ table = IF Design = "lazy" THEN [ready |-> FALSE, value |-> 0] ELSE [ready |-> TRUE, value |-> Gain]
        /\ inst = [i \in All |-> Idle]

Call(i, k) ==
  /\ inst[i].pc = "idle" /\ Len(inst[i].hist) < MaxCalls
  /\ inst' = [inst EXCEPT ![i].pc = IF table.ready THEN "load" ELSE "mark",
                          ![i].in = k, ![i].at = 1, ![i].hist = Append(@, Inputs[k])]
  /\ UNCHANGED <<mem, scratch, table>>
(* a lazy table is announced before it is filled *)
Mark(i) == /\ inst[i].pc = "mark" /\ table' = [table EXCEPT !.ready = TRUE]
           /\ inst' = [inst EXCEPT ![i].pc = "fill"] /\ UNCHANGED <<mem, scratch>>
Fill(i) == /\ inst[i].pc = "fill" /\ table' = [table EXCEPT !.value = Gain]
           /\ inst' = [inst EXCEPT ![i].pc = "load"] /\ UNCHANGED <<mem, scratch>>
Load(i) ==
  /\ inst[i].pc = "load"
  /\ IF inst[i].at > Len(mem[inst[i].in])
     THEN inst' = [inst EXCEPT ![i].pc = "idle"] /\ UNCHANGED <<mem, scratch>>
     ELSE /\ scratch' = [scratch EXCEPT ![Cell(i)] = mem[inst[i].in][inst[i].at]]
          /\ mem' = IF Design = "borrow" THEN [mem EXCEPT ![inst[i].in][inst[i].at] = 0] ELSE mem
          /\ inst' = [inst EXCEPT ![i].pc = "use"]
  /\ UNCHANGED table
Use(i) ==
  /\ inst[i].pc = "use"
  /\ LET v == inst[i].acc + table.value * scratch[Cell(i)] IN
     inst' = [inst EXCEPT ![i].pc = "load", ![i].at = @ + 1, ![i].acc = v, ![i].outs = Append(@, v)]
  /\ mem' = IF Design = "borrow" THEN [mem EXCEPT ![inst[i].in][inst[i].at] = scratch[Cell(i)]] ELSE mem
  /\ UNCHANGED <<scratch, table>>
Step(i) == (\E k \in 1..Len(Inputs) : Call(i, k)) \/ Mark(i) \/ Fill(i) \/ Load(i) \/ Use(i)
Next == \E i \in All : Step(i)
Spec == Init /\ [][Next]_vars

(* the accesses of an instance's next step: <<place, "r" or "w">> *)
Accesses(i) ==
  LET s == inst[i] IN
  CASE s.pc = "mark" -> {<<<<"ready", 0, 0>>, "w">>}
    [] s.pc = "fill" -> {<<<<"value", 0, 0>>, "w">>}
    [] s.pc = "load" -> (IF s.at > Len(mem[s.in]) THEN {}
                         ELSE {<<<<"cell", Cell(i), 0>>, "w">>, <<<<"mem", s.in, s.at>>, IF Design = "borrow" THEN "w" ELSE "r">>})
    [] s.pc = "use" -> {<<<<"value", 0, 0>>, "r">>, <<<<"cell", Cell(i), 0>>, "r">>} \union
                       (IF Design = "borrow" THEN {<<<<"mem", s.in, s.at>>, "w">>} ELSE {})
    [] OTHER -> IF Design = "lazy" /\ Len(s.hist) < MaxCalls THEN {<<<<"ready", 0, 0>>, "r">>} ELSE {}

(* ---- the properties ---- *)
AsAlone == \A i \in All : inst[i].pc = "idle" => inst[i].outs = Alone(inst[i].hist)
InputsKept == (\A i \in All : inst[i].pc = "idle") => mem = Inputs
NoRace == \A i, j \in All : i # j =>
            \A a \in Accesses(i), b \in Accesses(j) : a[1] # b[1] \/ (a[2] = "r" /\ b[2] = "r")
=============================================================================
