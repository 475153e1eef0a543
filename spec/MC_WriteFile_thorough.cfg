SPECIFICATION Spec
CONSTANTS
  MaxFiles = 3
  MaxPieces = 3
  MaxRuns = 4
  Discards = TRUE
INVARIANTS Complete EndedWithAll OneOpen
PROPERTIES Kept NeverUndone
