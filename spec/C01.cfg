SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC01
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
