SPECIFICATION Spec
CONSTANTS
 Agents = {1, 2, 3}
 Layers = {1, 2}
 MaxKills = 3
 MaxRestarts = 1
 IgnoreError = FALSE
 Unreachable = FALSE
 EarlyFile = FALSE
 IgnoreFull = FALSE
INVARIANTS ExitZero NoFile Failure
PROPERTIES Ends Served Refused
CHECK_DEADLOCK FALSE
