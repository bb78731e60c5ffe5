SPECIFICATION Spec
INVARIANTS Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  U = 4
  MaxCross = 60
  Meshes = {1, 2, 3, 4, 5, 7}
  WMax = 8
  WStep = 2
