SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC12
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
