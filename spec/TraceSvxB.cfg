INIT TraceInitEmpty
NEXT TraceNext
CONSTANTS
 Jobs = {1, 2, 3, 4, 5}
 Agents = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
 Layers = 0
 Trim = TRUE
 MaxDeaths = 100
 MaxErrors = 100
 MaxCancels = 100
 FreeOnCancel = FALSE
 LoseOnError = FALSE
 KeepOnLoss = FALSE
 FailOnLoss = FALSE
 OneArchive = FALSE
 NoCancel = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Complete ErrorsShow NoneMixed OwnFailure OneAtATime NeverLost
