SPECIFICATION Spec
CONSTANTS
  NFiles = 3
  Rich = FALSE
INVARIANTS Sound OrderFree AllVars InFiles DimsKnown OneLength Lengths
CHECK_DEADLOCK FALSE
