SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC06
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
