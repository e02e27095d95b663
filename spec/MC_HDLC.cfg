CONSTANTS K = 2  OctetLen = 4  MaxOctets = 2  HistLen = 18  FrameLens = {2}  ResyncLen = 9
CONSTANT Accept <- MCAccept
SPECIFICATION Spec
INVARIANTS TypeOK Agree Resync
CHECK_DEADLOCK FALSE
