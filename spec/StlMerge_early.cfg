SPECIFICATION Spec
CONSTANTS
  N = 3
  Nums = {0, 1, 2, 3}
  Locking = TRUE
  Early = TRUE
INVARIANTS Bounded NoneLost
PROPERTY Ends
CHECK_DEADLOCK FALSE
