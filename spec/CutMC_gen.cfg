SPECIFICATION Spec
CONSTANTS
  Unshifted = FALSE
MaxN = 3
  MaxOff = 3
  NumCuts = 1
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
