SPECIFICATION Spec
CONSTANTS
 Jobs = {1, 2}
 Agents = {1, 2}
 Layers = 1
 MaxDeaths = 1
 MaxErrors = 1
 MaxCancels = 1
 FreeOnCancel = FALSE
 LoseOnError = FALSE
 KeepOnLoss = FALSE
 FailOnLoss = FALSE
 OneArchive = FALSE
 NoCancel = FALSE
INVARIANTS Complete ErrorsShow NoneMixed OwnFailure OneAtATime NeverLost
PROPERTIES Ends CancelEnds
CHECK_DEADLOCK FALSE
