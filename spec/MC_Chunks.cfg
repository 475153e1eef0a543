CONSTANT MaxSize = 3
SPECIFICATION Spec
INVARIANTS ReadsInside Correct Complete
CHECK_DEADLOCK FALSE
