SPECIFICATION Spec
CONSTANTS
  MaxFiles = 2
  MaxPieces = 2
  MaxRuns = 3
  Discards = TRUE
INVARIANTS Complete EndedWithAll OneOpen
PROPERTIES Kept NeverUndone
