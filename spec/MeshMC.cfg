SPECIFICATION Spec
INVARIANTS Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  U = 4
  Meshes = {1, 2, 3, 4, 7}
  WMax = 6
  WStep = 2
  Slack = 1
  NParts = 2
