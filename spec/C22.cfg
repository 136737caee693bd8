SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC22
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
