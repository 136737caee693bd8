SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC07
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
