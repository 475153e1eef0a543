SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {"x", "1", "(", ")", "+", "-", "*", "**", ","}
  MaxLen = 6
INVARIANT Unambiguous
INVARIANT Agrees
INVARIANT Grouped
INVARIANT RoundTrip
