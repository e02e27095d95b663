SPECIFICATION SpecS
CONSTANTS
  Devs = 2
  Conns = 9
  MaxHandles = 9
  MaxCmds = 99
  Cmds <- AllCmds
  OpenFails = TRUE
  Fault = "none"
  Length = 60
  AtOnce = 3
INVARIANTS Emit Refines NoPanic
CHECK_DEADLOCK FALSE
