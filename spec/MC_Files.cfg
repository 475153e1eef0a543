SPECIFICATION Spec
CONSTANTS
  N = 3
  Metas = TRUE
  Coords = FALSE
INVARIANTS Confluent Within Least OwnersNamed ScalarsNamed
CHECK_DEADLOCK FALSE
