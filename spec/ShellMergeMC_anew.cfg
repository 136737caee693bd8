SPECIFICATION Spec
CONSTANTS
  Wrong = "anew"
Models = {1, 2}
  Cols <- AllCols
  Height = 3
  Must <- Corners
  Agains = {TRUE}
  Slacks = {1}
INVARIANTS ShellExact Covered
CHECK_DEADLOCK FALSE
