SPECIFICATION Spec
CONSTANTS
  Hasty = FALSE
Box <- Cube
  MaxVox = 4
INVARIANTS Exact Euler
CHECK_DEADLOCK FALSE
