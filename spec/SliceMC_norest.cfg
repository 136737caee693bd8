SPECIFICATION Spec
CONSTANTS
 Grids <- Grids_SliceMC_norest
 MaxDiv = 3
 Forgetful = FALSE
 NoRest = TRUE
INVARIANTS Right Framed Tiled
CHECK_DEADLOCK FALSE
