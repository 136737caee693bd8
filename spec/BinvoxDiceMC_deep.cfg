SPECIFICATION Spec
CONSTANTS
 MaxF = 4
 MaxModels = 4
 Dirty = FALSE
 PerModel = FALSE
INVARIANTS OwnPieces Tiled
PROPERTY Ends
CHECK_DEADLOCK FALSE
