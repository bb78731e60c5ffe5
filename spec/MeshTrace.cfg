SPECIFICATION TSpec
INVARIANT Verdict
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANTS
  U = 16
