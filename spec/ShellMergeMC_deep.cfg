SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Models = {1, 2, 3}
  Cols <- AllCols
  Height = 3
  Must = {}
  Agains = {FALSE, TRUE}
  Slacks = {1}
INVARIANTS ShellExact Covered
CHECK_DEADLOCK FALSE
