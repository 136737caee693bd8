SPECIFICATION Spec
CONSTANTS
 Jobs = {1, 2}
 Agents = {}
 Layers = 2
 MaxDeaths = 1
 MaxErrors = 1
 MaxCancels = 1
 FreeOnCancel = FALSE
 LoseOnError = FALSE
 KeepOnLoss = FALSE
 FailOnLoss = FALSE
 OneArchive = FALSE
 NoCancel = TRUE
INVARIANTS Complete ErrorsShow NoneMixed OwnFailure OneAtATime NeverLost
PROPERTIES CancelEnds
CHECK_DEADLOCK FALSE
