CONSTANT Many = FALSE
SPECIFICATION Spec
INVARIANTS Equivalence RoundTrip Path RightUnits LeftUnits Products Commutes Powers
CHECK_DEADLOCK FALSE
