SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {"x", "f", "1", "s", "(", ")", "[", "]", ":", "-", ",", "="}
  MaxLen = 5
INVARIANT NothingLost
INVARIANT InCall
