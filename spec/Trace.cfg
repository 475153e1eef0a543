SPECIFICATION TraceSpec
INVARIANT TraceComplete
CHECK_DEADLOCK FALSE
CONSTANT
  Assess <- AssessRecord
