SPECIFICATION GSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  U = 4
  Meshes = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  WMax = 6
  WStep = 3
  Slack = 1
  NParts = 0
