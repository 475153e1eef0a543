SPECIFICATION Spec
CONSTANTS N = 4 Steps = {0, 2}
INVARIANTS Kept Lengths Attributes Exchange Copied
CHECK_DEADLOCK FALSE
