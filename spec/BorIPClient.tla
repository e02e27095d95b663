---------------------------- MODULE BorIPClient ----------------------------
(***************************************************************************)
(* A BorIP client session.  Every call sends one line and consumes one     *)
(* reply; Interpret gives the meaning of the reply for the method, Step    *)
(* the session state after it, CloseLines what Close sends.                *)
(* Texts are sequences of byte codes.                                      *)
(***************************************************************************)
EXTENDS ByteText

W == [DEVICE |-> <<68, 69, 86, 73, 67, 69>>, FREQ |-> <<70, 82, 69, 81>>,
      ANTENNA |-> <<65, 78, 84, 69, 78, 78, 65>>, RATE |-> <<82, 65, 84, 69>>,
      GAIN |-> <<71, 65, 73, 78>>, DEST |-> <<68, 69, 83, 84>>, HEADER |-> <<72, 69, 65, 68, 69, 82>>,
      GO |-> <<71, 79>>, STOP |-> <<83, 84, 79, 80>>]
OK == <<79, 75>>  ON == <<79, 78>>  OFF == <<79, 70, 70>>
Dash == 45  Bar == 124  Comma == 44  Deselect == <<33>>

NumSetters == {"SetFrequency", "SetRate", "SetGain"}
StrSetters == {"SetAntenna", "SetDestination"}
NumGetters == {"Frequency", "Rate", "Gain"}
StrGetters == {"Antenna", "Destination"}
Word(m) ==
  CASE m = "SelectDevice" -> W.DEVICE
    [] m \in {"SetFrequency", "Frequency"} -> W.FREQ
    [] m \in {"SetAntenna", "Antenna"} -> W.ANTENNA
    [] m \in {"SetRate", "Rate"} -> W.RATE
    [] m \in {"SetGain", "Gain"} -> W.GAIN
    [] m \in {"SetDestination", "Destination"} -> W.DEST
    [] m \in {"SetHeaderEnabled", "HeaderEnabled"} -> W.HEADER
    [] m = "Go" -> W.GO
    [] m = "Stop" -> W.STOP
HasArg(m) == m \in NumSetters \cup StrSetters \cup {"SelectDevice", "SetHeaderEnabled"}

(* the line sent is Word(m), and for setters a space and the argument; a   *)
(* numeric argument is any plain decimal for the value (harness: back)     *)
LineOk(m, arg, back, line) ==
  IF ~HasArg(m) THEN line = Word(m)
  ELSE /\ StartsWith(line, Word(m) \o <<Space>>)
       /\ LET a == From(line, Len(Word(m)) + 2) IN
          IF m \in NumSetters THEN IsPlainDecimal(a) /\ back = 1
                              ELSE a = arg

(* ------------------------------------------------------------- replies  *)
NoDevice == [name |-> <<>>, serial |-> <<>>, ming |-> Zero, maxg |-> Zero, step |-> Zero, fpga |-> Zero,
             spp |-> 0, ants |-> <<>>]
Fail(words) == [ok |-> FALSE, vals |-> <<>>, words |-> words, dev |-> "same", device |-> NoDevice]
Good(vals)  == [ok |-> TRUE, vals |-> vals, words |-> <<>>, dev |-> "same", device |-> NoDevice]
EndOfStream == Fail(<<>>)

Descriptor(t) ==                       \* fields of a device descriptor
  LET f == Split(t, Bar) IN
  IF Len(f) < 7 THEN Fail(<<>>)
  ELSE IF ~(IsNumber(f[2]) /\ IsNumber(f[3]) /\ IsNumber(f[4]) /\ IsNumber(f[5]) /\ IsInt(f[6]))
    THEN Fail(<<>>)
  ELSE [ok |-> TRUE, vals |-> <<>>, words |-> <<>>, dev |-> "set",
        device |-> [name |-> f[1], ming |-> Canon(f[2]), maxg |-> Canon(f[3]), step |-> Canon(f[4]),
                    fpga |-> Canon(f[5]), spp |-> IntVal(f[6]), ants |-> Split(f[7], Comma),
                    serial |-> IF Len(f) > 7 THEN f[8] ELSE <<>>]]
Select(r) ==
  LET sp == First(r, 1, LAMBDA c : c = Space)
      t == From(r, sp + 1)
  IN IF SubSeq(r, 1, sp - 1) # W.DEVICE \/ t = <<>> THEN Fail(<<>>)
     ELSE IF t = <<Dash>> THEN [Good(<<>>) EXCEPT !.dev = "clear"]
     ELSE IF t[1] = Dash THEN Fail(Words(Trim(From(t, 2))))
     ELSE Descriptor(t)
Value(w, i) == IF Len(w) >= i THEN Canon(w[i]) ELSE Zero
Setter(m, r) ==
  LET w == Words(r) IN
  IF Len(w) < 2 THEN Fail(<<>>)
  ELSE IF w[2] # OK THEN Fail(From(w, 2))
  ELSE CASE m = "SetFrequency" -> Good(<<Value(w, 3), Value(w, 4), Value(w, 5), Value(w, 6)>>)
         [] m = "SetRate" -> IF Len(w) < 3 THEN Fail(<<>>)
                             ELSE IF IsNumber(w[3]) THEN Good(<<Canon(w[3])>>) ELSE Fail(<<>>)
         [] m = "SetDestination" -> IF Len(w) < 3 THEN Fail(<<>>) ELSE Good(<<w[3]>>)
         [] OTHER -> Good(<<>>)
Getter(m, r) ==
  LET k == Len(Word(m)) + 1
      v == From(r, k + 1)
  IN IF Len(r) < k THEN Fail(<<>>)
     ELSE IF m \in StrGetters THEN Good(<<v>>)
     ELSE IF m \in NumGetters THEN (IF IsNumber(v) THEN Good(<<Canon(v)>>) ELSE Fail(<<>>))
     ELSE IF v = ON THEN Good(<<<<49>>>>) ELSE IF v = OFF THEN Good(<<<<48>>>>) ELSE Fail(<<>>)
Interpret(m, reply) ==
  LET r == Trim(reply) IN
  IF m = "SelectDevice" THEN Select(r)
  ELSE IF m \in NumGetters \cup StrGetters \cup {"HeaderEnabled"} THEN Getter(m, r)
  ELSE Setter(m, r)

(* ------------------------------------------------------- session state  *)
Session0 == [running |-> FALSE, has |-> FALSE, device |-> NoDevice]
Step(s, m, res) ==
  [running |-> IF m = "Go" /\ res.ok THEN TRUE ELSE IF m = "Stop" /\ res.ok THEN FALSE ELSE s.running,
   has |-> IF res.dev = "set" THEN TRUE ELSE IF res.dev = "clear" THEN FALSE ELSE s.has,
   device |-> IF res.dev = "set" THEN res.device ELSE IF res.dev = "clear" THEN NoDevice ELSE s.device]
CloseLines(s) == (IF s.running THEN <<W.STOP>> ELSE <<>>)
                 \o (IF s.has THEN <<W.DEVICE \o <<Space>> \o Deselect>> ELSE <<>>)
=============================================================================
