SPECIFICATION Spec
CONSTANTS
  Peers = {"p", "q"}
  Uuids = {"u", "v"}
  Tools = {"t"}
  Runs = 2
INVARIANTS Clean Serving Fresh Known OneHolder Attached Order NeverBad
CHECK_DEADLOCK FALSE
