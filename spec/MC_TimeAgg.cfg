SPECIFICATION Spec
CONSTANTS
  Starts = {0, 400, 459}
  MaxSteps = 38
  Widths = {1, 2, 5}
  MaxCells = 4
INVARIANTS Partition Shares Linear YearsMeet Climate Back BoundsMeet Recovered Mirrored
CHECK_DEADLOCK FALSE
