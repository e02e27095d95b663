SPECIFICATION Spec
INVARIANT Unambiguous
INVARIANT Possible
CHECK_DEADLOCK FALSE
