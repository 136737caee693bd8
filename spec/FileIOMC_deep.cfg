SPECIFICATION Spec
CONSTANTS
  In = 8
  Out = 8
  Wrong = "no"
INVARIANTS Honest Seen Sound NoSpuriousFailure
CHECK_DEADLOCK FALSE
PROPERTY Ends
