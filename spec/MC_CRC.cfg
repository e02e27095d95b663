CONSTANT MaxBits = 4096
SPECIFICATION Spec
INVARIANTS Single Double Triple
CHECK_DEADLOCK FALSE
