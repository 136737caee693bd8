SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Fmt = "binvox"
  Grids <- DeepModelGrids
  MaxRun = 3
  Bytes = {}
CONSTRAINT EmitModels
CHECK_DEADLOCK FALSE
