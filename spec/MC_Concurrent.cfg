SPECIFICATION Spec
CONSTANTS
  Instances = 2
  MaxCalls = 2
  Design = "own"
  Inputs <- SomeInputs
INVARIANTS AsAlone InputsKept NoRace
CHECK_DEADLOCK FALSE
