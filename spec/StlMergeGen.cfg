SPECIFICATION Spec
CONSTANT MaxN = 4
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
