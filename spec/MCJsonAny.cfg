CONSTANTS
  Chars = {123, 125, 34, 92, 10, 97}
  MaxOne = 7
  MaxTwo = 4
  Judged = FALSE
SPECIFICATION Spec
INVARIANTS Exact Rule
CHECK_DEADLOCK FALSE
