---------------------------- MODULE BorIPServer ----------------------------
(***************************************************************************)
(* The BorIP server as seen from outside: its clients' connections, the    *)
(* receiver driver and the datagrams.  A state S is a record               *)
(*   cl      connections, in the order they were made                      *)
(*   hd      device handles, in the order the driver gave them out         *)
(*   opening driver opens in progress: pairs <<connection, device>>        *)
(*   settle  devices just given back: pairs <<connection, device>>         *)
(* and Steps(S, e) is the set of states after event e; it is empty when    *)
(* the server must not behave so.  Events:                                 *)
(*   conn cmd disc             what clients do                             *)
(*   ret deliver               what the driver does                        *)
(*   call cbret reply          what the server does (cbret: the sample     *)
(*                             callback returned)                          *)
(*   drain                     the datagrams that have arrived by now      *)
(*   settled quiet             time has passed; all is over                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Devices(S) == {i \in 0..(Len(S.names) - 1) : S.names[i + 1] # ""}      \* "" has no name
S0(names) == [names |-> names, cl |-> <<>>, hd |-> <<>>, opening |-> {}, settle |-> {}]

Client(dest) ==
  [st |-> "greet", busy |-> FALSE, w |-> "", k |-> "", a |-> "", lo |-> "", hi |-> "", dev |-> 0, dest |-> dest, call |-> "",
   exc |-> {}, on |-> FALSE, endable |-> FALSE, started |-> FALSE, opened |-> FALSE,
   cset |-> "", cget |-> "", reset |-> "", gains |-> <<>>, xtal |-> "0"]
Handle(i, c) ==
  [i |-> i, c |-> c, open |-> TRUE, async |-> FALSE, s |-> "", incb |-> FALSE, at |-> "", nil |-> FALSE, buf |-> <<>>, rep |-> 1,
   exp |-> <<>>, seq |-> 0, dest |-> "", freq |-> "0", rate |-> "0", gain |-> "0", init |-> {}]

Word(c) == c.w
Busy(S, c) == S.cl[c].busy
Streaming(S, c) == S.cl[c].dev # 0 /\ S.hd[S.cl[c].dev].async
Stops(w, k) == w = "STOP" \/ (w = "DEVICE" /\ k \in {"-", "!"})
(* the stream of connection c may end from now on *)
MayStop(S, c) ==
  IF Streaming(S, c) /\ S.hd[S.cl[c].dev].s = "run" THEN [S EXCEPT !.hd[S.cl[c].dev].s = "may"] ELSE S
Selecting(x) == x.busy /\ x.w = "DEVICE" /\ x.k = "-"
(* device i cannot be counted on by selections in progress *)
Excuse(S, i) == [S EXCEPT !.cl = [j \in 1..Len(S.cl) |-> IF Selecting(S.cl[j]) THEN [S.cl[j] EXCEPT !.exc = @ \cup {i}] ELSE S.cl[j]]]

(* ---------------------------------------------------------- connections *)
Conn(S, e) == {[S EXCEPT !.cl = Append(S.cl, Client(e.dest))]}
Disc(S, e) == {MayStop([S EXCEPT !.cl[e.c].st = "gone"], e.c)}
Command(S, e) ==
  LET c == e.c  x == S.cl[c]  h == x.dev
      taken == {S.hd[j].i : j \in {j \in 1..Len(S.hd) : S.hd[j].open /\ S.hd[j].c # c}}
               \cup {p[2] : p \in S.opening} \cup {p[2] : p \in S.settle}
      T == [S EXCEPT !.cl[c] = [x EXCEPT !.busy = TRUE, !.w = e.w, !.k = e.k, !.a = e.a, !.lo = e.lo, !.hi = e.hi, !.exc = taken,
              !.on = Streaming(S, c), !.endable = (IF Streaming(S, c) THEN S.hd[h].s = "stop" \/ (S.hd[h].incb /\ S.hd[h].nil) ELSE TRUE),
              !.started = FALSE, !.opened = FALSE, !.cset = "", !.cget = "", !.reset = "", !.gains = <<>>, !.xtal = "0"]]
  IN IF Stops(e.w, e.k) THEN {MayStop(T, c)} ELSE {T}

(* --------------------------------------------------------- driver calls *)
Setter(w) == IF w = "FREQ" THEN "SetCenterFreq" ELSE IF w = "RATE" THEN "SetSampleRate" ELSE IF w = "GAIN" THEN "SetTunerGain" ELSE "none"
Getters == {"GetCenterFreq", "GetSampleRate", "GetTunerGain", "GetTunerGains", "GetXtalFreq"}
(* the stream runs for sure: no callback is about to end it *)
On(r) == r.async /\ ~(r.incb /\ (r.nil \/ r.s # "run"))
Field(f) == CASE f \in {"SetCenterFreq", "GetCenterFreq", "FREQ"} -> "freq"
              [] f \in {"SetSampleRate", "GetSampleRate", "RATE"} -> "rate"
              [] f \in {"SetTunerGain", "GetTunerGain", "GAIN"} -> "gain"
Defaults == [SetCenterFreq |-> "144100000", SetSampleRate |-> "1000000", SetAGCMode |-> "0"]
MayCall(x, f, arg, on) ==          \* by a connection x that holds the device; on: its stream runs
  IF f = "Close" THEN x.st = "gone" \/ (x.busy /\ x.w = "DEVICE" /\ x.k \in {"-", "!"} /\ ~x.opened)
  ELSE /\ x.busy
       /\ \/ f \in Getters
          \/ f = Setter(x.w) /\ x.k = "num" /\ arg \in {x.lo, x.hi}
          \/ x.opened /\ (f = "SetTunerGainMode" \/ (f \in DOMAIN Defaults /\ Defaults[f] = arg))
          \/ x.w = "GO" /\ f = "ResetBuffer" /\ ~on
          \/ x.w = "GO" /\ f = "ReadAsync" /\ ~on /\ x.reset = "ok" /\ ~x.started
Call(S, e) ==
  IF e.f = "Open"
  THEN IF /\ e.i \in Devices(S)
          /\ \A h \in 1..Len(S.hd) : ~(S.hd[h].open /\ S.hd[h].i = e.i)
          /\ \A p \in S.opening : p[2] # e.i
       THEN {Excuse([S EXCEPT !.cl[c].call = "Open", !.opening = @ \cup {<<c, e.i>>}], e.i) :
               c \in {c \in 1..Len(S.cl) : Selecting(S.cl[c]) /\ S.cl[c].dev = 0 /\ S.cl[c].call = ""}}
       ELSE {}
  ELSE IF e.h \notin 1..Len(S.hd) THEN {}
  ELSE IF ~S.hd[e.h].open THEN {}
  ELSE LET c == S.hd[e.h].c  x == S.cl[c] IN
       IF x.call = "" /\ MayCall(x, e.f, e.arg, On(S.hd[e.h]))
       THEN LET T == [S EXCEPT !.cl[c].call = e.f] IN
            {IF e.f = "Close" /\ S.hd[e.h].async THEN [T EXCEPT !.hd[e.h].s = "stop"] ELSE T}
       ELSE {}
Returned(S, e, c) ==
  LET ok == e.err = 0  x == [S.cl[c] EXCEPT !.call = ""]  T == [S EXCEPT !.cl[c] = x]  h == e.h
      verdict == IF ok THEN "ok" ELSE "fail"
  IN CASE e.f = "Close" ->
            [T EXCEPT !.hd[h] = (LET r == S.hd[h] IN
                                    [Handle(r.i, r.c) EXCEPT !.open = FALSE, !.exp = r.exp, !.seq = IF r.exp = <<>> THEN 0 ELSE r.seq,
                                                             !.dest = IF r.exp = <<>> THEN "" ELSE r.dest]),
                      !.cl[c].dev = 0,
                      !.settle = @ \cup {<<c, S.hd[h].i>>}]
       [] e.f \in {"SetCenterFreq", "SetSampleRate", "SetTunerGain"} ->
            LET U == [T EXCEPT !.cl[c].cset = verdict, !.hd[h].init = @ \cup {e.f}] IN
            IF ~ok THEN U
            ELSE IF e.f = "SetCenterFreq" THEN [U EXCEPT !.hd[h].freq = e.val]
            ELSE IF e.f = "SetSampleRate" THEN [U EXCEPT !.hd[h].rate = e.val]
            ELSE [U EXCEPT !.hd[h].gain = e.val]
       [] e.f = "SetAGCMode" -> [T EXCEPT !.hd[h].init = @ \cup {e.f}]
       [] e.f \in {"GetCenterFreq", "GetSampleRate", "GetTunerGain"} -> [T EXCEPT !.cl[c].cget = verdict]
       [] e.f = "GetTunerGains" -> [T EXCEPT !.cl[c].gains = IF ok THEN e.list ELSE <<>>]
       [] e.f = "GetXtalFreq" -> [T EXCEPT !.cl[c].xtal = IF ok THEN e.val ELSE "0"]
       [] e.f = "ResetBuffer" -> [T EXCEPT !.cl[c].reset = verdict]
       [] e.f = "ReadAsync" ->
            [T EXCEPT !.cl[c].started = TRUE,
                      !.hd[h] = [S.hd[h] EXCEPT !.async = TRUE, !.s = IF x.st = "gone" THEN "may" ELSE "run", !.incb = FALSE,
                                                !.exp = <<>>, !.seq = 0, !.dest = x.dest]]
       [] OTHER -> T
Ret(S, e) ==
  IF e.f = "Open"
  THEN {LET c == p[1]  x == [S.cl[c] EXCEPT !.call = ""]  T == [S EXCEPT !.cl[c] = x, !.opening = @ \ {p}] IN
        IF e.err = 1 THEN T
        ELSE [T EXCEPT !.cl[c] = [x EXCEPT !.dev = e.h, !.opened = TRUE], !.hd = Append(S.hd, Handle(e.i, c))] :
        p \in {p \in S.opening : p[2] = e.i}}
  ELSE IF e.f = "ReadAsync" /\ S.hd[e.h].async THEN {}          \* it did not end
  ELSE {Returned(S, e, S.hd[e.h].c)}

(* --------------------------------------------------------------- stream *)
Deliver(S, e) ==
  LET T == [S EXCEPT !.hd[e.h] = [S.hd[e.h] EXCEPT !.incb = TRUE, !.at = S.hd[e.h].s, !.nil = (e.nil = 1), !.buf = e.buf, !.rep = e.rep]]
  IN IF e.nil = 1 THEN {[T EXCEPT !.cl[S.hd[e.h].c].endable = TRUE]} ELSE {T}
Times(b, n) == IF n = 1 THEN b ELSE [i \in 1..(n * Len(b)) |-> b[((i - 1) % Len(b)) + 1]]
CbRet(S, e) ==
  LET r == S.hd[e.h] IN
  IF ~r.incb THEN {}
  ELSE IF r.nil THEN {[S EXCEPT !.hd[e.h].incb = FALSE, !.hd[e.h].async = FALSE]}
  ELSE IF e.stop = 1
       THEN IF r.s = "run" \/ (r.at = "stop" /\ e.n # 1) THEN {}
            ELSE {[S EXCEPT !.hd[e.h].incb = FALSE, !.hd[e.h].async = FALSE,
                            !.hd[e.h].exp = IF e.n = 1 THEN @ ELSE @ \o Times(r.buf, e.n - 1)]}
       ELSE IF r.at = "stop" \/ e.n # r.rep THEN {}
            ELSE {[S EXCEPT !.hd[e.h].incb = FALSE, !.hd[e.h].exp = @ \o Times(r.buf, e.n)]}
(* datagrams [to, flags, note, seq, b] in the order of their arrival *)
Signed(v) == (v + 128) % 256          \* both bytes of the 16-bit value of an unsigned 8-bit sample
MaxPayload == 16384                    \* 4096 I/Q pairs of 4 bytes
RECURSIVE Offsets(_, _)
Offsets(D, acc) == IF D = <<>> THEN acc ELSE Offsets(Tail(D), Append(acc, acc[Len(acc)] + Len(Head(D).b)))
Carries(r, D) ==
  \E off \in {Offsets(D, <<0>>)} :
    /\ off[Len(D) + 1] = 2 * Len(r.exp)
    /\ \A k \in 1..Len(D) :
         /\ Len(D[k].b) > 0 /\ Len(D[k].b) <= MaxPayload
         /\ D[k].seq = (r.seq + k - 1) % 65536
         /\ D[k].flags = (IF r.seq + k - 1 = 0 THEN 16 ELSE 0)
         /\ D[k].note = 0
         /\ Len(D[k].b) % 2 = 0
         /\ \A j \in 1..(Len(D[k].b) \div 2) :
              LET v == Signed(r.exp[off[k] \div 2 + j]) IN D[k].b[2 * j - 1] = v /\ D[k].b[2 * j] = v
Due(S) == {h \in 1..Len(S.hd) : S.hd[h].exp # <<>>}
(* dead: destinations nobody listens to *)
Drain(S, e) ==
  IF /\ \A k \in 1..Len(e.got) : \E h \in Due(S) : S.hd[h].dest = e.got[k].to
     /\ \A h \in Due(S) : (S.hd[h].dest \in ToSet(e.dead)) \/ Carries(S.hd[h], SelectSeq(e.got, LAMBDA d : d.to = S.hd[h].dest))
  THEN {[S EXCEPT !.hd = [h \in 1..Len(S.hd) |->
            IF h \in Due(S)
            THEN [S.hd[h] EXCEPT !.exp = <<>>,
                                 !.seq = @ + Len(SelectSeq(e.got, LAMBDA d : d.to = S.hd[h].dest))]
            ELSE S.hd[h]]]}
  ELSE {}

(* -------------------------------------------------------------- replies *)
NeedDevice == {"FREQ", "RATE", "GAIN", "ANTENNA", "GO"}
Numeric == {"FREQ", "RATE", "GAIN"}
Cut(t, n) == IF Len(t) <= n THEN t ELSE SubSeq(t, 1, n)
Descriptor(S, x, d) ==
  LET g == x.gains IN
  /\ Len(d) >= 7
  /\ d[1] = S.names[S.hd[x.dev].i + 1]
  /\ d[2] = (IF g = <<>> THEN "0" ELSE g[1][1]) /\ d[3] = (IF g = <<>> THEN "1" ELSE g[Len(g)][1])
  /\ d[4] = (IF Len(g) < 2 THEN "1" ELSE g[2][2])             \* gains are <<value, difference to the one before>>
  /\ d[5] = x.xtal
  /\ d[6] = "4096" /\ d[7] = "default"
Value(S, x) == LET r == S.hd[x.dev] IN CASE x.w = "FREQ" -> r.freq [] x.w = "RATE" -> r.rate [] x.w = "GAIN" -> r.gain
Failed(x) == x.cset = "fail" \/ x.cget = "fail"
Right(S, x, t, d) ==
  IF x.w \in NeedDevice /\ x.dev = 0 THEN Len(t) >= 2 /\ t[1] = x.w /\ t[2] = "DEVICE"
  ELSE CASE x.w \in Numeric /\ x.k = "q" -> IF x.cget = "fail" THEN Cut(t, 2) = <<x.w, "-">> ELSE t = <<x.w, Value(S, x)>>
         [] x.w \in Numeric /\ x.k = "bad" -> Cut(t, 2) = <<x.w, "FAIL">> /\ x.cset = ""
         [] x.w \in Numeric /\ x.k = "num" ->
              IF x.cset = "" THEN FALSE
              ELSE IF Failed(x) THEN Cut(t, 2) = <<x.w, "FAIL">>
              ELSE IF x.w = "FREQ" THEN Cut(t, 4) = <<x.w, "OK", x.a, Value(S, x)>>
              ELSE t = <<x.w, "OK", Value(S, x)>>
         [] x.w = "ANTENNA" -> t = (IF x.k = "q" THEN <<x.w, "default">> ELSE <<x.w, "OK">>)
         [] x.w = "DEST" -> IF x.k = "q" THEN t = <<x.w, x.dest>>
                            ELSE IF x.k = "bad" THEN Cut(t, 2) = <<x.w, "FAIL">>
                            ELSE t = <<x.w, "OK", x.a>>
         [] x.w = "GO" -> \/ x.started /\ t = <<"GO", "OK">>
                          \/ x.on /\ ~x.started /\ t = <<"GO", "RUNNING">>
                          \/ ~x.started /\ x.reset = "fail" /\ Cut(t, 2) = <<"GO", "FAIL">>
         [] x.w = "STOP" -> \/ x.on /\ t = <<"STOP", "OK">>
                            \/ x.endable /\ t = <<"STOP", "STOPPED">>
         [] x.w = "DEVICE" /\ x.k = "-" ->
              IF x.dev # 0 THEN /\ x.opened /\ {"SetCenterFreq", "SetSampleRate", "SetAGCMode"} \subseteq S.hd[x.dev].init
                                /\ Descriptor(S, x, d)
              ELSE Devices(S) \subseteq x.exc /\ Cut(t, 2) = <<"DEVICE", "-">> /\ Len(t) > 2
         [] x.w = "DEVICE" /\ x.k = "!" -> x.dev = 0 /\ t = <<"DEVICE", "-">>
         [] x.w = "DEVICE" /\ x.k = "hint" -> Cut(t, 2) = <<"DEVICE", "-">> /\ Len(t) > 2
         [] OTHER -> t = <<x.w, "UNKNOWN">>
Answered(S, e) ==
  LET c == e.c  x == S.cl[c]
      T == [S EXCEPT !.cl[c] = [Client(IF x.w = "DEST" /\ x.k = "ok" THEN x.a ELSE x.dest) EXCEPT !.st = "up", !.dev = x.dev],
                     !.settle = {p \in @ : p[1] # c}]
  IN IF x.w = "STOP" /\ e.t = <<"STOP", "OK">> /\ Streaming(S, c) THEN [T EXCEPT !.hd[x.dev].s = "stop"] ELSE T
Reply(S, e) ==
  LET c == e.c  x == S.cl[c] IN
  IF x.st = "greet" THEN (IF e.t = <<"DEVICE", "-">> THEN {[S EXCEPT !.cl[c].st = "up"]} ELSE {})
  ELSE IF x.st # "up" \/ ~x.busy \/ x.call # "" THEN {}
  ELSE IF ~Right(S, x, e.t, e.d) THEN {}
  ELSE {Answered(S, e)}

(* ------------------------------------------------------------------ end *)
Settled(S) == {[S EXCEPT !.settle = {p \in @ : S.cl[p[1]].st # "gone"}]}
Quiet(S) == IF /\ \A h \in 1..Len(S.hd) : ~S.hd[h].open
               /\ S.opening = {} /\ \A c \in 1..Len(S.cl) : S.cl[c].st = "gone"
            THEN {S} ELSE {}

Steps(S, e) ==
  CASE e.op = "conn" -> Conn(S, e)
    [] e.op = "disc" -> Disc(S, e)
    [] e.op = "cmd" -> Command(S, e)
    [] e.op = "call" -> Call(S, e)
    [] e.op = "ret" -> Ret(S, e)
    [] e.op = "deliver" -> Deliver(S, e)
    [] e.op = "cbret" -> CbRet(S, e)
    [] e.op = "drain" -> Drain(S, e)
    [] e.op = "reply" -> Reply(S, e)
    [] e.op = "settled" -> Settled(S)
    [] e.op = "quiet" -> Quiet(S)
    [] OTHER -> {}

(* ----------------------------------------------------------- invariants *)
Exclusive(S) == \A g, h \in 1..Len(S.hd) : (g # h /\ S.hd[g].open /\ S.hd[h].open) => S.hd[g].i # S.hd[h].i
HolderKnows(S) == /\ \A h \in 1..Len(S.hd) : S.hd[h].open => S.cl[S.hd[h].c].dev = h
                  /\ \A c \in 1..Len(S.cl) : S.cl[c].dev # 0 => S.hd[S.cl[c].dev].open
StreamHasDevice(S) == \A h \in 1..Len(S.hd) : S.hd[h].async => S.hd[h].open
=============================================================================
