SPECIFICATION Spec
CONSTANTS
  Conns = {"c1","c2","c3"}
  AsyncConns = {"c3"}
  Uuids = {"u1","u2","u3"}
  AddrM = 3
  Slots = TRUE
  Timed = TRUE
  PrintEdges = FALSE
  MaxOpen = 3
  ServerTimeout <- MCServerTimeout
  HandshakeTimeout <- MCHandshakeTimeout
  Slack <- MCSlack
VIEW View
INVARIANTS Inv ToldExact NothingMisplaced CanAlloc NoOverdue
PROPERTIES Routing Delivered Answered MayClose RefusalIsolated RegOutcome
CHECK_DEADLOCK FALSE
