SPECIFICATION Spec
CONSTANT MaxN = 5
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
