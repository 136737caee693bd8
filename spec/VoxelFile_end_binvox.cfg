SPECIFICATION Spec
CONSTANTS
  Wrong = "end"
Fmt = "binvox"
  Grids <- QuickGrids
  MaxRun = 3
  Bytes = {0, 1, 2, 3, 255}
INVARIANTS RoundTrip Agree CutPrefix InGrid PosCell
PROPERTY Ends
CHECK_DEADLOCK FALSE
