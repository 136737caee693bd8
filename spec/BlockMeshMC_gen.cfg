SPECIFICATION Spec
CONSTANTS
  Hasty = FALSE
Box <- Cube
  MaxVox = 8
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
