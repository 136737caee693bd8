SPECIFICATION Spec
CONSTANTS
  Wrong = "still"
Models = {1, 2}
  Cols <- AllCols
  Height = 3
  Must <- Corners
  Agains = {FALSE}
  Slacks = {1}
INVARIANTS ShellExact Covered
CHECK_DEADLOCK FALSE
