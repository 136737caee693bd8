SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC02
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
