SPECIFICATION Spec
CONSTANTS MaxN = 2
MaxL = 2
INVARIANTS InPlace ReadBack Ends
CHECK_DEADLOCK FALSE
