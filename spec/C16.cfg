SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC16
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
