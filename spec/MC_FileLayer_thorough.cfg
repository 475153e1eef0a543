SPECIFICATION Spec
CONSTANTS N = 5 Steps = {0, 2}
INVARIANTS Kept Lengths Attributes Exchange Copied
CHECK_DEADLOCK FALSE
