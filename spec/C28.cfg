SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC28
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
