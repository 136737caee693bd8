SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Fmt = "binvox"
  Grids <- QuickGrids
  MaxRun = 3
  Bytes = {0, 1, 2, 255}
CONSTRAINT EmitFiles
CHECK_DEADLOCK FALSE
