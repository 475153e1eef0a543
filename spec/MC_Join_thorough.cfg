SPECIFICATION Spec
CONSTANTS
  N = 5
  B = 6
  S = 3
INVARIANTS SliceLaw IntLaw InRange
CHECK_DEADLOCK FALSE
