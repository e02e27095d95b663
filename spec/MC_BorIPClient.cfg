SPECIFICATION Spec
CONSTANTS MaxCalls = 3
Emit = FALSE
INVARIANTS StateOfHistory LockStep OrderlyClose
PROPERTY Answered
CHECK_DEADLOCK FALSE
