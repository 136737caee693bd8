SPECIFICATION Spec
CONSTANTS
  XLines <- SomeX
  YLines <- SomeY
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
