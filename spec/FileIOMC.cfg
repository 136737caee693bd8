SPECIFICATION Spec
CONSTANTS
  In = 4
  Out = 4
  Wrong = "no"
INVARIANTS Honest Seen Sound NoSpuriousFailure
CHECK_DEADLOCK FALSE
PROPERTY Ends
