SPECIFICATION Spec
INVARIANTS Once Placed Follows InTimeOrder Complete OrderlySnaps RowsKept
PROPERTIES Frozen OnlyAdds Frame
CHECK_DEADLOCK FALSE
CONSTANTS
  U = 4
  MaxCross = 20
  Depth = 5
  Starts = {1, 2, 3}
  Capacities = {2, 20}
  Sources = TRUE
