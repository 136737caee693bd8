SPECIFICATION Spec
CONSTANT Box <- Wide
INVARIANT Closed
CHECK_DEADLOCK FALSE
