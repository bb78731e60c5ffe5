SPECIFICATION Spec
INVARIANTS Holds
CHECK_DEADLOCK FALSE
CONSTANTS
  U = 4
  Meshes = {1, 2, 3, 4, 5, 7, 8}
  SphMeshes = {1, 7}
  VMax = 1
  CMax = 2
