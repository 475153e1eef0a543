CONSTANT Dims = {"x", "y"}
SPECIFICATION Spec
INVARIANTS OrderFree LeftFirst TransposeBack Moves ReduceFree ReduceJoint
CHECK_DEADLOCK FALSE
