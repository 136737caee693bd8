SPECIFICATION Spec
CONSTANTS
  Unshifted = FALSE
MaxN = 2
  MaxOff = 2
  NumCuts = 2
INVARIANTS Exact Diced
PROPERTY Ends
CHECK_DEADLOCK FALSE
