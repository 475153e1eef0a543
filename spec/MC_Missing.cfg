CONSTANT Many = FALSE
SPECIFICATION Spec
INVARIANTS Binary Division Unary Roots Moves Reductions Jointly
CHECK_DEADLOCK FALSE
