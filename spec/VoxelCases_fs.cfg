SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Fmt = "vshell"
  Grids <- ShellGrids
  MaxRun = 3
  Bytes = {0, 1, 32, 255}
CONSTRAINT EmitFiles
CHECK_DEADLOCK FALSE
