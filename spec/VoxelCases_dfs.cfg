SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Fmt = "vshell"
  Grids <- DeepShellGrids
  MaxRun = 3
  Bytes = {0, 1, 2, 32, 255}
CONSTRAINT EmitFiles
CHECK_DEADLOCK FALSE
