SPECIFICATION Spec
CONSTANTS
  Unshifted = FALSE
MaxN = 3
  MaxOff = 3
  NumCuts = 1
INVARIANTS Exact Diced
PROPERTY Ends
CHECK_DEADLOCK FALSE
