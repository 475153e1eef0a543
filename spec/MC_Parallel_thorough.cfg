SPECIFICATION Spec
CONSTANTS
  MaxRanks = 4
  MaxFiles = 5
  MaxWeight = 2
INVARIANTS AtMostOnce AllWritten Divided Together
PROPERTY Ends
