INIT GenInit
NEXT GenNext
CONSTANTS
 Jobs = {1, 2, 3}
 Agents = {1, 2, 3}
 Layers = 2
 MaxDeaths = 2
 MaxErrors = 1
 MaxCancels = 2
 Length = 8
 Start0 = {0, 1, 2, 3}
 FreeOnCancel = FALSE
 LoseOnError = FALSE
 KeepOnLoss = FALSE
 FailOnLoss = FALSE
 OneArchive = FALSE
 NoCancel = FALSE
CONSTRAINT Out
INVARIANTS Complete ErrorsShow NoneMixed OwnFailure OneAtATime NeverLost
CHECK_DEADLOCK FALSE
