SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC26
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
