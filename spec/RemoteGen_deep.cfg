INIT Init
NEXT Next
CONSTANTS
 Length = 7
 MaxAgents = 3
 MaxClients = 2
CONSTRAINT Out
CHECK_DEADLOCK FALSE
