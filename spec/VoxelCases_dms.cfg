SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Fmt = "vshell"
  Grids <- DeepShellModelGrids
  MaxRun = 3
  Bytes = {}
CONSTRAINT EmitModels
CHECK_DEADLOCK FALSE
