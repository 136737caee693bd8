SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC24
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
