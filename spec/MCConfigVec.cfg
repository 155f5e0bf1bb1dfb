SPECIFICATION Spec
CONSTANT Dist = 2
INVARIANTS Means Refuses Runs Report
CONSTRAINT Stopped
CHECK_DEADLOCK FALSE
