SPECIFICATION Spec
CONSTANTS
  Years = {4, 1899, 1999}
  Steps = {86400, 75600}
  Alphabet = {"{", "}", "-", "a"}
  MaxLen = 5
INVARIANTS Inverse Ordered SameInUnits
