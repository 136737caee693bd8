SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC20
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
