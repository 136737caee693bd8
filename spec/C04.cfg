SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC04
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
