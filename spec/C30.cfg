SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC30
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
