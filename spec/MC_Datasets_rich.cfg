SPECIFICATION Spec
CONSTANTS
  NFiles = 2
  Rich = TRUE
INVARIANTS Sound OrderFree AllVars InFiles DimsKnown OneLength Lengths
CHECK_DEADLOCK FALSE
