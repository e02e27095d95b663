SPECIFICATION Spec
INVARIANT CosSinOk
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 60
