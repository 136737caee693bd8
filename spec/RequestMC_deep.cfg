SPECIFICATION Spec
CONSTANTS
 Requests = {1, 2, 3}
 Layers = 2
 MasterChecks <- AllParts
 AgentChecks <- AllParts
INVARIANTS Alive Refuses Agree
CHECK_DEADLOCK FALSE
