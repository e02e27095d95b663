SPECIFICATION Spec
CONSTANTS
  Instances = 2
  MaxCalls = 2
  Design = "own"
  Inputs <- SomeInputs
INVARIANTS AsAlone InputsKept
CHECK_DEADLOCK FALSE
