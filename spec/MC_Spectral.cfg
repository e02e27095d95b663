SPECIFICATION Spec
INVARIANTS BlockDFT Partial Sliding Fixed
CHECK_DEADLOCK FALSE
CONSTANTS
 Values = {0, 1, 3}
 Blocks = 2
 MaxSteps = 8
