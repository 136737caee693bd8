SPECIFICATION Spec
CONSTANTS
  Hasty = FALSE
Box <- Flat
  MaxVox = 9
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
