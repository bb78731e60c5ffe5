SPECIFICATION TSpec
INVARIANT Verdict
POSTCONDITION Done
CHECK_DEADLOCK FALSE
