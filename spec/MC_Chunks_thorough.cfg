CONSTANT MaxSize = 3
SPECIFICATION SpecAny
INVARIANTS ReadsInside Correct Complete
CHECK_DEADLOCK FALSE
