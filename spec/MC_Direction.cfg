SPECIFICATION Spec
INVARIANTS Linear FlipInvariant ResultDirection HalfDirected TowardOK FlipTwice PowerDirection PowerOdd ConvKeeps
CHECK_DEADLOCK FALSE
