SPECIFICATION Live
CONSTANTS
  Devs = 1
  Conns = 2
  MaxHandles = 2
  MaxCmds = 2
  Cmds <- AllCmds
  OpenFails = TRUE
  Fault = "none"
INVARIANTS Refines
PROPERTIES Answered_ Freed
CHECK_DEADLOCK FALSE
