SPECIFICATION Spec
CONSTANTS
  W = 3
  Rows = {1, 2}
  Places <- Few
  Locking = FALSE
INVARIANTS OnlySolid Exact
CHECK_DEADLOCK FALSE
