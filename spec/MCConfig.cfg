SPECIFICATION Spec
CONSTANT Dist = 1
INVARIANTS Means Refuses Runs Distinct
CHECK_DEADLOCK FALSE
