SPECIFICATION Spec
INVARIANTS Symmetric Bounded Rising Peak
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 40
