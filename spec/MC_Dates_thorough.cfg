SPECIFICATION Spec
CONSTANTS
  Years = {1, 4, 99, 100, 399, 400, 1600, 1899, 1900, 1999, 2000, 2099}
  Steps = {86400, 75600}
  Alphabet = {"{", "}", "-", "a"}
  MaxLen = 7
INVARIANTS Inverse Ordered SameInUnits
