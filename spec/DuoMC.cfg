CONSTANTS
Length = 3
Leak = FALSE
Scripts <- MCScripts
SPECIFICATION DuoSpec
INVARIANT Apart
INVARIANT Ends
CHECK_DEADLOCK FALSE
