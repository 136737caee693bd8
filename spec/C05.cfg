SPECIFICATION EventsSpec
CONSTANT Verdict <- VerdictC05
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
