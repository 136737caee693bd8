SPECIFICATION Spec
CONSTANTS
  Width = 3
  Div = 2
  Models = 1
  Pieces = 2
  Crashes = 1
  InPlace = TRUE
INVARIANTS NamedIsComplete Final
PROPERTY Ends
CHECK_DEADLOCK FALSE
