SPECIFICATION Spec
CONSTANTS
 Requests = {1, 2}
 Layers = 2
 MasterChecks <- AllParts
 AgentChecks <- AllParts
INVARIANTS Alive Refuses Agree
PROPERTIES Answered
CHECK_DEADLOCK FALSE
