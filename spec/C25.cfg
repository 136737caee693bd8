SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC25
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
