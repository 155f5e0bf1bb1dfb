SPECIFICATION FairSpec
CONSTANTS
  Tpss = {"t1"}
  Trcs = {"r1"}
  Jrcs = {}
  Addrs = {1, 2}
  Ids = {"0", "1", "2"}
  Hooked = {}
  PrintEdges = FALSE
VIEW View
INVARIANTS Inv
PROPERTIES Told Shake Ends Sockets Wire Isolated Retry ComesBack RpcOnce
CHECK_DEADLOCK FALSE
