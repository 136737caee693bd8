SPECIFICATION Spec
CONSTANTS
  Hasty = TRUE
Box <- Small
  MaxVox = 4
INVARIANTS Exact Euler
CHECK_DEADLOCK FALSE
