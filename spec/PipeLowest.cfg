SPECIFICATION Spec
CONSTANTS
  Rcs = {"c1", "c2"}
  AddrM = 2
  AddrRule = "lowest"
  MaxT = 2
  MaxSend = 2
  MaxTotal = 2
  MaxCut = 1
  MaxDisc = 1
INVARIANTS Streams OneAddress Agree Complete
CHECK_DEADLOCK FALSE
