SPECIFICATION Spec
CONSTANTS
 MaxF = 3
 MaxModels = 3
 Dirty = TRUE
 PerModel = FALSE
INVARIANTS OwnPieces Tiled
PROPERTY Ends
CHECK_DEADLOCK FALSE
