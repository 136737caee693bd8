SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC11
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
