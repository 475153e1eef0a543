CONSTANT Dims = {"x", "y", "z"}
SPECIFICATION Spec
INVARIANTS OrderFree LeftFirst TransposeBack Moves ReduceFree ReduceJoint
CHECK_DEADLOCK FALSE
