SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
Fmt = "vshell"
  Grids <- DeepShellGrids
  MaxRun = 2
  Bytes = {0, 1, 32, 255}
INVARIANTS RoundTrip Agree CutPrefix InGrid PosCell
PROPERTY Ends
CHECK_DEADLOCK FALSE
