INIT Init
NEXT Next
CONSTANT MaxOdd = 2
CONSTRAINT Out
CHECK_DEADLOCK FALSE
