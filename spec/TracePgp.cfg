SPECIFICATION TraceSpec
CONSTANTS
  ArgonFacts <- Facts
  Enforced <- PropUnderCheck
INVARIANT PInv
ALIAS Where
CHECK_DEADLOCK TRUE
