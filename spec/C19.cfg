SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC19
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
