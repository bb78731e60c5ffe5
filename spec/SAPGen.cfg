SPECIFICATION GSpec
CONSTANTS
  L = 2
  Depth = 4
  MaxFill = 5
INVARIANTS GenOK Emit
CHECK_DEADLOCK FALSE
