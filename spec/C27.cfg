SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC27
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
