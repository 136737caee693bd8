SPECIFICATION Spec
CONSTANTS
  N = 4
  Nums = {0, 1, 2, 3}
  Locking = TRUE
  Early = FALSE
INVARIANTS Bounded NoneLost
PROPERTY Ends
CHECK_DEADLOCK FALSE
