INIT Init
NEXT Next
CONSTANT MaxOdd = 3
CONSTRAINT Out
CHECK_DEADLOCK FALSE
