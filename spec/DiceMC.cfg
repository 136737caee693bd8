SPECIFICATION Spec
CONSTANTS
  Width = 5
  Div = 2
  Models = 2
  Pieces = 2
  Crashes = 2
  InPlace = FALSE
INVARIANTS NamedIsComplete Final
PROPERTY Ends
CHECK_DEADLOCK FALSE
