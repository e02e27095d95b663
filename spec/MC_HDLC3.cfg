CONSTANTS K = 3  OctetLen = 5  MaxOctets = 3  HistLen = 14  FrameLens = {2}  ResyncLen = 9
CONSTANT Accept <- MCAccept
SPECIFICATION Spec
INVARIANTS TypeOK Agree Resync
CHECK_DEADLOCK FALSE
