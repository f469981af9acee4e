SPECIFICATION PSpec
CONSTANTS
  ArgonFacts <- Facts
  Enforced <- All27
  MaxKeys = 3
  MaxOuts = 1
  MaxLen = 9000
  SeedsPerKey = 1
INVARIANT PInv
CHECK_DEADLOCK FALSE
