SPECIFICATION Spec
CONSTANTS
  Unflushed = FALSE
Size = 12
  HeaderSize = 5
INVARIANTS Honest NoSpuriousFailure
PROPERTY Ends
CHECK_DEADLOCK FALSE
