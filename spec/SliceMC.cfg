SPECIFICATION Spec
CONSTANTS
 Grids <- Grids_SliceMC
 MaxDiv = 3
 Forgetful = FALSE
 NoRest = FALSE
INVARIANTS Right Framed Tiled
CHECK_DEADLOCK FALSE
