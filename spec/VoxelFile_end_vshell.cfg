SPECIFICATION Spec
CONSTANTS
  Wrong = "end"
Fmt = "vshell"
  Grids <- ShellGrids
  MaxRun = 2
  Bytes = {0, 1, 32, 255}
INVARIANTS RoundTrip Agree CutPrefix InGrid PosCell
PROPERTY Ends
CHECK_DEADLOCK FALSE
