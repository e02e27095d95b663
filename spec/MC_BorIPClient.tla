--------------------------- MODULE MC_BorIPClient ---------------------------
(***************************************************************************)
(* The session against any server: the peer answers each line it receives  *)
(* with some reply of the alphabet, replies travel in order and are cut    *)
(* into fragments anywhere, or the peer stops sending.  Checked: results   *)
(* and session state depend on the n-th reply alone; Close sends STOP and  *)
(* the deselection exactly when they are due, then closes.                 *)
(* With Emit, every complete history is written out; the conformance      *)
(* check replays them into the real client.                                *)
(***************************************************************************)
EXTENDS BorIPClient, TLC, Json
CONSTANTS MaxCalls, Emit
VARIABLES hist,      \* completed calls: <<method, reply index>> (0: end of stream)
          sess, up,  \* what the client line-by-line state machine remembers
          lines,     \* lines at the peer
          inbuf,     \* bytes of the current reply that reached the client
          todo,      \* bytes still on the way
          call,      \* the call in progress
          ph         \* "idle", "wait", "closed"
vars == <<hist, sess, up, lines, inbuf, todo, call, ph>>

Desc == <<110, 124, 48, 124, 49, 124, 49, 124, 53, 124, 52, 124, 97>>       \* n|0|1|1|5|4|a
Desc2 == <<109, 124, 48, 124, 50, 124, 49, 124, 53, 124, 52, 124, 97, 44, 98, 124, 115>>
Replies(m) ==
  CASE m = "SelectDevice" -> << W.DEVICE \o <<32>> \o Desc, W.DEVICE \o <<32>> \o Desc2, W.DEVICE \o <<32, 45>>,
                                W.DEVICE \o <<32, 45, 32, 120>>, W.DEVICE \o <<32, 110, 124, 48>> >>
    [] m = "Go" -> << W.GO \o <<32>> \o OK, W.GO \o <<32, 82>> >>
    [] m = "Stop" -> << W.STOP \o <<32>> \o OK, W.STOP \o <<32, 83>>, W.STOP >>
    [] m = "Rate" -> << W.RATE \o <<32, 53>> >>
Methods == {"SelectDevice", "Go", "Stop", "Rate"}

Init == /\ hist = <<>> /\ sess = Session0 /\ up = TRUE /\ lines = <<>> /\ inbuf = <<>> /\ todo = <<>>
        /\ call = <<>> /\ ph = "idle"
Begin == /\ ph = "idle" /\ Len(hist) < MaxCalls
         /\ \E m \in Methods :
              /\ lines' = Append(lines, m)
              /\ \E i \in (IF up THEN 0 ELSE 0)..(IF up THEN Len(Replies(m)) ELSE 0) :
                   /\ call' = <<m, i>>
                   /\ todo' = (IF i = 0 THEN <<>> ELSE Replies(m)[i] \o <<10>>)
                   /\ up' = (up /\ i # 0)
         /\ ph' = "wait" /\ inbuf' = <<>> /\ UNCHANGED <<hist, sess>>
(* fragments: cut in two at any place is as good as anywhere for a reader  *)
(* that waits for the line end                                             *)
Arrive == /\ ph = "wait" /\ todo # <<>>
          /\ \E k \in {1, Len(todo)} :
               inbuf' = inbuf \o SubSeq(todo, 1, k) /\ todo' = From(todo, k + 1)
          /\ UNCHANGED <<hist, sess, up, lines, call, ph>>
Line == inbuf # <<>> /\ inbuf[Len(inbuf)] = 10
Return == /\ ph = "wait"
          /\ IF Line THEN TRUE ELSE call[2] = 0
          /\ LET r == IF call[2] = 0 THEN EndOfStream ELSE Interpret(call[1], SubSeq(inbuf, 1, Len(inbuf) - 1))
             IN sess' = Step(sess, call[1], r)
          /\ hist' = Append(hist, call)
          /\ ph' = "idle" /\ UNCHANGED <<up, lines, inbuf, todo, call>>
Close == /\ ph = "idle"
         /\ ph' = "closed"
         /\ lines' = lines \o CloseLines(sess)
         /\ (Emit => PrintT(<<"HIST", ToJson(hist)>>))
         /\ UNCHANGED <<hist, sess, up, inbuf, todo, call>>
Next == Begin \/ Arrive \/ Return \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Arrive) /\ WF_vars(Return)

(* the same state, computed from the history alone *)
Acked(h, m) == {i \in 1..Len(h) : h[i][1] = m /\ h[i][2] = 1}
MustStop == \E i \in Acked(hist, "Go") : \A j \in Acked(hist, "Stop") : j < i
Sel == {i \in 1..Len(hist) : hist[i][1] = "SelectDevice" /\ hist[i][2] \in {1, 2, 3}}
Selected == IF Sel = {} THEN 3 ELSE hist[CHOOSE i \in Sel : \A j \in Sel : j <= i][2]
StateOfHistory ==
  ph # "wait" => /\ sess.running = MustStop
                 /\ sess.has = (Selected # 3)
                 /\ (sess.has => sess.device.name = (IF Selected = 1 THEN <<110>> ELSE <<109>>))
LockStep == /\ (ph = "idle" => Len(lines) = Len(hist))
            /\ (ph = "wait" => Len(lines) = Len(hist) + 1)
OrderlyClose ==
  ph = "closed" =>
    From(lines, Len(hist) + 1) = (IF MustStop THEN <<W.STOP>> ELSE <<>>)
       \o (IF Selected # 3 THEN <<W.DEVICE \o <<32, 33>>>> ELSE <<>>)
Answered == (ph = "wait") ~> (ph # "wait")
=============================================================================
