SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Fmt = "binvox"
  Grids <- DeepGrids
  MaxRun = 3
  Bytes = {0, 1, 2, 3, 255}
CONSTRAINT EmitFiles
CHECK_DEADLOCK FALSE
