CONSTANTS Seeds = {0, 1, 2}
Own = 1
Steps = 4
Runs = 3
SPECIFICATION TwinSpec
INVARIANT Repeats
CHECK_DEADLOCK FALSE
