SPECIFICATION FairSpec
CONSTANTS
  Tpss = {}
  Trcs = {}
  Jrcs = {"j1"}
  Addrs = {1, 2}
  Ids = {"0", "1", "2"}
  Hooked = {}
  PrintEdges = FALSE
VIEW View
INVARIANTS Inv
PROPERTIES Told Shake Ends Sockets Wire Isolated Retry RpcOnce
CHECK_DEADLOCK FALSE
