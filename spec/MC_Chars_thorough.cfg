SPECIFICATION Spec
CONSTANTS MaxN = 3
MaxL = 3
INVARIANTS InPlace ReadBack Ends
CHECK_DEADLOCK FALSE
