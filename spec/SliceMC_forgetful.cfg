SPECIFICATION Spec
CONSTANTS
 Grids <- Grids_SliceMC_forgetful
 MaxDiv = 3
 Forgetful = TRUE
 NoRest = FALSE
INVARIANTS Right Framed Tiled
CHECK_DEADLOCK FALSE
