SPECIFICATION Spec
CONSTANTS
  Conns = {"c1","c2","c3","c4"}
  AsyncConns = {"c4"}
  Uuids = {"u1","u2","u3","u4"}
  AddrM = 3
  Slots = TRUE
  Timed = FALSE
  PrintEdges = FALSE
  MaxOpen = 4
  ServerTimeout <- MCServerTimeout
  HandshakeTimeout <- MCHandshakeTimeout
  Slack <- MCSlack
VIEW View
INVARIANTS Inv ToldExact NothingMisplaced CanAlloc NoOverdue
PROPERTIES Routing Delivered Answered MayClose RefusalIsolated RegOutcome
CHECK_DEADLOCK FALSE
