SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC08
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
