SPECIFICATION Spec
CONSTANTS
  N = 3
  Nums = {0, 1, 2, 3}
  Locking = FALSE
  Early = FALSE
INVARIANTS Bounded NoneLost
PROPERTY Ends
CHECK_DEADLOCK FALSE
