INIT Init
NEXT Next
CONSTANTS
 Jobs = {1, 2}
 Agents = {a1, a2, a3}
 Layers = 2
 MaxDeaths = 2
 MaxErrors = 2
 MaxCancels = 2
 FreeOnCancel = FALSE
 LoseOnError = FALSE
 KeepOnLoss = FALSE
 FailOnLoss = FALSE
 OneArchive = FALSE
 NoCancel = FALSE
INVARIANTS Complete ErrorsShow NoneMixed OwnFailure OneAtATime NeverLost
SYMMETRY Sym
CHECK_DEADLOCK FALSE
