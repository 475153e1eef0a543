SPECIFICATION Spec
CONSTANTS
  N = 3
  B = 3
  S = 2
INVARIANTS SliceLaw IntLaw InRange
CHECK_DEADLOCK FALSE
