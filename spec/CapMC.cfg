SPECIFICATION Spec
INVARIANTS Fits Filled HasOne
CHECK_DEADLOCK FALSE
CONSTANTS
  NMax = 8
  EMax = 1
