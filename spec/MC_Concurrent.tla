--------------------------- MODULE MC_Concurrent ----------------------------
EXTENDS Concurrent
(* one input common to all and one more *)
SomeInputs == << <<1, 2>>, <<5>> >>
=============================================================================
