INIT Init
NEXT Next
CONSTANTS
 Jobs = {1, 2}
 Agents = {1, 2}
 Layers = 2
 MaxDeaths = 1
 MaxErrors = 1
 MaxCancels = 1
 FreeOnCancel = FALSE
 LoseOnError = FALSE
 KeepOnLoss = FALSE
 FailOnLoss = FALSE
 OneArchive = FALSE
 NoCancel = FALSE
INVARIANTS Complete ErrorsShow NoneMixed OwnFailure OneAtATime NeverLost
CHECK_DEADLOCK FALSE
