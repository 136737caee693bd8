INIT GenInit
NEXT GenNext
CONSTANTS
 Jobs = {1, 2}
 Agents = {1, 2}
 Layers = 2
 MaxDeaths = 1
 MaxErrors = 1
 MaxCancels = 1
 Length = 6
 Start0 = {1, 2}
 FreeOnCancel = FALSE
 LoseOnError = FALSE
 KeepOnLoss = FALSE
 FailOnLoss = FALSE
 OneArchive = FALSE
 NoCancel = FALSE
CONSTRAINT Out
INVARIANTS Complete ErrorsShow NoneMixed OwnFailure OneAtATime NeverLost
CHECK_DEADLOCK FALSE
