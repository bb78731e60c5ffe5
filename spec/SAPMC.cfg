SPECIFICATION Spec
CONSTANTS
  L = 2
  MaxItems = 5
INVARIANTS Faithful PassKeepsOrder Capacity
PROPERTY Refines
CHECK_DEADLOCK FALSE
