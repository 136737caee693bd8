SPECIFICATION Spec
CONSTANTS
  Hasty = FALSE
Box <- Small
  MaxVox = 4
INVARIANTS Exact Euler
CHECK_DEADLOCK FALSE
