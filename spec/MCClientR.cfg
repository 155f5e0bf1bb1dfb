SPECIFICATION FairSpec
CONSTANTS
  Tpss = {}
  Trcs = {"r1"}
  Jrcs = {}
  Addrs = {1, 2}
  Ids = {"0", "1", "2"}
  Hooked = {"r1"}
  PrintEdges = FALSE
VIEW View
INVARIANTS Inv
PROPERTIES Told Shake Ends Sockets Wire Isolated Retry RpcOnce
CHECK_DEADLOCK FALSE
