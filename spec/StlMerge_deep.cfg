SPECIFICATION Spec
CONSTANTS
  N = 5
  Nums = {0, 1, 2, 3, 4, 6}
  Locking = TRUE
  Early = FALSE
INVARIANTS Bounded NoneLost
PROPERTY Ends
CHECK_DEADLOCK FALSE
