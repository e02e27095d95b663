SPECIFICATION Spec
INVARIANTS Fast Second Both
CHECK_DEADLOCK FALSE
CONSTANTS
 Ratios = 2500
 Ints = 60
