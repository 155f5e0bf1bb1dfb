SPECIFICATION FairSpec
CONSTANTS
  Svs = {"s1", "s2"}
  Rcs = {"c1", "c2"}
  Relayed = {"s1", "c2"}
  PrintEdges = FALSE
VIEW View
INVARIANTS Inv
PROPERTIES Pipe BothTold Isolated Lasting ComesBack
CHECK_DEADLOCK FALSE
