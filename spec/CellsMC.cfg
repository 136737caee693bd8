SPECIFICATION Spec
CONSTANT Box <- Slab
INVARIANT Closed
CHECK_DEADLOCK FALSE
