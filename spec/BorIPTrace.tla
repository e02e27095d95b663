----------------------------- MODULE BorIPTrace -----------------------------
(***************************************************************************)
(* Runs of the real BorIP client against the harness's server must be      *)
(* behaviours of BorIPClient.  Aspect:                                     *)
(*  "B01" the line sent by each call; the result is the one the n-th reply *)
(*        gives in a session of its own (ref)                              *)
(*  "B02" results and errors of all methods but SelectDevice; no panic     *)
(*  "B03" Device() and the lines of Close follow the results so far        *)
(*  "B04" results of SelectDevice                                          *)
(***************************************************************************)
EXTENDS BorIPClient, TLC, Json, IOUtils
Trace  == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
VARIABLES l, sess
vars == <<l, sess>>

(* device record as recorded (numbers as text) *)
Dev(d) == [name |-> d.name, serial |-> d.serial, ming |-> Canon(d.ming), maxg |-> Canon(d.maxg),
           step |-> Canon(d.step), fpga |-> Canon(d.fpga), spp |-> d.spp, ants |-> d.ants]
Vals(m, vs) == IF m \in StrGetters \cup {"SetDestination", "HeaderEnabled"} THEN vs
               ELSE [i \in 1..Len(vs) |-> Canon(vs[i])]
WordsIn(words, text) == \A i \in 1..Len(words) : Includes(text, words[i])

(* what the call reported, as a result *)
Observed(e) == [ok |-> e.err = 0, vals |-> <<>>, words |-> <<>>,
                dev |-> IF e.m # "SelectDevice" \/ e.err = 1 THEN "same" ELSE IF e.hasret = 1 THEN "set" ELSE "clear",
                device |-> Dev(e.ret)]

Sent(e) == Len(e.lines) = 1 /\ LineOk(e.m, e.arg, e.back, e.lines[1])
AsAlone(e) == /\ e.err = e.ref.err /\ e.etext = e.ref.etext /\ e.vals = e.ref.vals
              /\ e.hasret = e.ref.hasret /\ e.ret = e.ref.ret
Means(e) ==
  LET r == IF e.eof = 1 THEN EndOfStream ELSE Interpret(e.m, e.reply) IN
  /\ (e.err = 0) = r.ok
  /\ IF r.ok THEN Vals(e.m, e.vals) = r.vals ELSE WordsIn(r.words, e.etext)
Selects(e) ==
  LET r == IF e.eof = 1 THEN EndOfStream ELSE Interpret(e.m, e.reply) IN
  /\ (e.err = 0) = r.ok
  /\ IF r.ok THEN /\ (e.hasret = 1) = (r.dev = "set")
                  /\ (e.hasret = 1 => Dev(e.ret) = r.device)
     ELSE /\ WordsIn(r.words, e.etext)
          /\ e.has = e.hadbefore /\ e.device = e.before
Init == l = 1 /\ sess = Session0
Dial(e) ==
  /\ e.op = "dial"
  /\ (Aspect = "B02" => (e.panic = 0 /\ e.hang = 0 /\ (e.err = 1) = (e.eof = 1)))
  /\ (Aspect = "B03" => (e.err = 1 => e.closed = 1))
  /\ sess' = Session0
Call(e) ==
  /\ e.op = "call"
  /\ (Aspect \in {"B01", "B02"} => e.hang = 0)
  /\ CASE Aspect = "B01" -> Sent(e) /\ AsAlone(e)
       [] Aspect = "B02" -> e.panic = 0 /\ (e.m # "SelectDevice" => Means(e))
       [] Aspect = "B04" -> (e.m = "SelectDevice" => e.panic = 0 /\ Selects(e))
       [] OTHER -> TRUE
  /\ sess' = Step(sess, e.m, Observed(e))
  /\ (Aspect = "B03" => /\ (e.has = 1) = sess'.has
                        /\ (sess'.has => Dev(e.device) = sess'.device))
Close(e) ==
  /\ e.op = "close"
  /\ (Aspect = "B02" => e.panic = 0 /\ e.hang = 0)
  /\ (Aspect = "B03" => /\ e.hang = 0 /\ e.panic = 0
                        /\ e.lines = CloseLines(sess)
                        /\ e.closed = 1)
  /\ (Aspect \in {"B01", "B03"} => e.rest = <<>>)
  /\ UNCHANGED sess
(* a call on a connection that is no longer there *)
After(e) ==
  /\ e.op = "after"
  /\ (Aspect = "B02" => e.panic = 0 /\ e.hang = 0 /\ e.err = 1)
  /\ UNCHANGED sess
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
       IF e.op = "dial" THEN Dial(e) ELSE IF e.op = "call" THEN Call(e)
       ELSE IF e.op = "close" THEN Close(e) ELSE After(e)
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted ==
  /\ PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
