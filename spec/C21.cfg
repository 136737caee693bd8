SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC21
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
