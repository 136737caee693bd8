SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC03
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
