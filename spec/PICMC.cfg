SPECIFICATION Spec
INVARIANTS Mirrored Reversed Neutral Labelled Sums Equation Gauss Grounded
CHECK_DEADLOCK FALSE
CONSTANTS
  U = 4
  NCells = 3
  WMax = 2
  Steps = 3
