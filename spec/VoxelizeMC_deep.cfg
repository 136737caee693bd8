SPECIFICATION Spec
CONSTANTS
  W = 4
  Rows = {1, 2}
  Places <- Many
  Locking = TRUE
INVARIANTS OnlySolid Exact Mutex
PROPERTY Ends
CHECK_DEADLOCK FALSE
