SPECIFICATION Spec
CONSTANTS
  Peers = {"p"}
  Uuids = {"u", "v"}
  Tools = {"t"}
  Runs = 2
INVARIANTS Clean Serving
PROPERTIES Obeys Starts Back
CHECK_DEADLOCK FALSE
