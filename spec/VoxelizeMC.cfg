SPECIFICATION Spec
CONSTANTS
  W = 3
  Rows = {1, 2}
  Places <- Few
  Locking = TRUE
INVARIANTS OnlySolid Exact Mutex
CHECK_DEADLOCK FALSE
