SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC13
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
