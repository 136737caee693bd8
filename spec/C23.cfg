SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC23
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
