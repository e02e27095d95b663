SPECIFICATION Spec
CONSTANTS MaxDatagrams = 4
MaxLen = 13
MaxRead = 3
Headers = TRUE
INVARIANTS Once NothingLost Whole
PROPERTY ErrorsKeep
CHECK_DEADLOCK FALSE
