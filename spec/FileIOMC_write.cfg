SPECIFICATION Spec
CONSTANTS
  In = 4
  Out = 4
  Wrong = "write"
INVARIANTS Honest Seen Sound
CHECK_DEADLOCK FALSE
