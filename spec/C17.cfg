SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC17
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
