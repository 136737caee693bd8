SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Fmt = "vshell"
  Grids <- ShellModelGrids
  MaxRun = 3
  Bytes = {}
CONSTRAINT EmitModels
CHECK_DEADLOCK FALSE
