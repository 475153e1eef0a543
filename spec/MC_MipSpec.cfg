SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Chars = {"#", "=", "a", " ", ":", "TABLE"}
  MaxChars = 6
  Secs = {"S", "T", "Coords_q", "Coords_r"}
  DefNames = {"a", "x"}
  DefTexts = {"d1", "d2"}
  MaxLines = 4
  Users = {"all", "a", "caz"}
INVARIANT Blanks
INVARIANT Comment
INVARIANT OneKind
INVARIANT LookedUp
INVARIANT Exactly
INVARIANT AnyOrder
INVARIANT OwnRealm
