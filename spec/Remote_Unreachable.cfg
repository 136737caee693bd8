SPECIFICATION Spec
CONSTANTS
 Agents = {1, 2}
 Layers = {1, 2}
 MaxKills = 2
 MaxRestarts = 1
 IgnoreError = FALSE
 Unreachable = TRUE
 EarlyFile = FALSE
 IgnoreFull = FALSE
INVARIANTS ExitZero NoFile Failure
PROPERTIES Ends Served Refused
CHECK_DEADLOCK FALSE
