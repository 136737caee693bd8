SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC09
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
