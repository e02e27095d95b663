SPECIFICATION Spec
CONSTANTS
  MaxDevices = 1
  MaxConns = 2
  MaxHandles = 2
  MaxDelivers = 1
  Cmds = {"DEVICE", "GO", "STOP"}
INVARIANTS Exclusives NeverLost NeverStuck StoppedStaysSilent
CHECK_DEADLOCK FALSE
