SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Models = {1, 2}
  Cols <- AllCols
  Height = 3
  Must <- Corners
  Agains = {FALSE, TRUE}
  Slacks = {1}
INVARIANTS ShellExact Covered
CHECK_DEADLOCK FALSE
