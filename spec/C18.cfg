SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC18
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
