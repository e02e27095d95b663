SPECIFICATION Spec
INVARIANTS AtSamples Continuous HermiteContinuous Between
CHECK_DEADLOCK FALSE
CONSTANTS
 Values = {0, 1, 5}
 Len0 = 5
