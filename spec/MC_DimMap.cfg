SPECIFICATION Spec
CONSTANTS
  NVars = 2
  Same = TRUE
INVARIANTS OneToOne Covered OnlyUsed OrderFree Possible
PROPERTY Extends
CHECK_DEADLOCK FALSE
