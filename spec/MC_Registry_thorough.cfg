SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxIds = 4
  Keys = {"f", "g"}
  MaxBases = 2
INVARIANT ExactlyOne
INVARIANT Meant
INVARIANT Listed
INVARIANT OrderFree
PROPERTY Stable
PROPERTY NeverLess
