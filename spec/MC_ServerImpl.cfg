SPECIFICATION Spec
CONSTANTS
  Devs = 1
  Conns = 2
  MaxHandles = 2
  MaxCmds = 4
  Cmds <- AllCmds
  OpenFails = TRUE
  Fault = "none"
INVARIANTS Refines NoPanic Guarded
CHECK_DEADLOCK FALSE
VIEW View
