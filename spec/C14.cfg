SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictCells
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
