SPECIFICATION Spec
INVARIANTS Groups Rates Phases DC IIR
CHECK_DEADLOCK FALSE
CONSTANTS
 Values = {0, 1, 3}
 MaxLen = 6
 MaxBlock = 3
 Down = 3
 Fast = 5
 Slow = 2
 Coef = 1
