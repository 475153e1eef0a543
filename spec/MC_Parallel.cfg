SPECIFICATION Spec
CONSTANTS
  MaxRanks = 3
  MaxFiles = 3
  MaxWeight = 2
INVARIANTS AtMostOnce AllWritten Divided Together
PROPERTY Ends
