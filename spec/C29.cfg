SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC29
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
