SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Fmt = "binvox"
  Grids <- ModelGrids
  MaxRun = 3
  Bytes = {}
CONSTRAINT EmitModels
CHECK_DEADLOCK FALSE
