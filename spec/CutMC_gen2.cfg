SPECIFICATION Spec
CONSTANTS
  Unshifted = FALSE
MaxN = 2
  MaxOff = 2
  NumCuts = 2
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
