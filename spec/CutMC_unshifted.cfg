SPECIFICATION Spec
CONSTANTS
  Unshifted = TRUE
MaxN = 3
  MaxOff = 3
  NumCuts = 1
INVARIANTS Exact Diced
PROPERTY Ends
CHECK_DEADLOCK FALSE
