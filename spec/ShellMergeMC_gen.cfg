SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Models = {1, 2}
  Cols <- AllCols
  Height = 3
  Must <- Corners
  Agains = {FALSE}
  Slacks = {0, 2}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
