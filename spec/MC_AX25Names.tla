---------------------------- MODULE MC_AX25Names ----------------------------
(* The naming is unambiguous and fits the control field: a state is a pair *)
(* of codes of one kind.                                                   *)
EXTENDS AX25Names, TLC
VARIABLES kind, a, b
vars == <<kind, a, b>>
Init == kind \in Kinds /\ a \in 0..255 /\ b = 0
Next == b = 0 /\ b' \in 1..255 /\ UNCHANGED <<kind, a>>
Spec == Init /\ [][Next]_vars
(* two codes never look the same *)
Unambiguous == Name(kind, a) = Name(kind, b) => a = b
(* codes of each kind are what ControlPart can deliver, with the P/F bit   *)
(* cleared; of every control octet the decoder tells the type by its name  *)
Possible ==
  LET c == ControlPart(<<a, b>>) IN
  /\ (kind = "ut" /\ Named(Unnumbered, a) # {}) => (c.typ = 2 /\ c.ut = a)
  /\ (kind = "st" /\ Named(Supervisory, a) # {}) => (c.typ = 1 /\ c.st = a)
  /\ Name("typ", c.typ) = (IF a % 2 = 0 THEN "I" ELSE IF a % 4 = 1 THEN "S" ELSE "U")
  /\ c.typ = 1 => Named(Supervisory, c.st) # {}
=============================================================================
