CONSTANT Verdict <- Check
SPECIFICATION JSpec
INVARIANT Judged
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
