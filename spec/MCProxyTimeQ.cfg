SPECIFICATION Spec
CONSTANTS
  Conns = {"c1","c2"}
  AsyncConns = {"c2"}
  Uuids = {"u1","u2"}
  AddrM = 3
  Slots = TRUE
  Timed = TRUE
  PrintEdges = FALSE
  MaxOpen = 2
  ServerTimeout <- MCServerTimeout
  HandshakeTimeout <- MCHandshakeTimeout
  Slack <- MCSlack
VIEW View
INVARIANTS Inv ToldExact NothingMisplaced CanAlloc NoOverdue
PROPERTIES Routing Delivered Answered MayClose RefusalIsolated RegOutcome
CHECK_DEADLOCK FALSE
