SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC10
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
