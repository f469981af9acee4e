SPECIFICATION CSpec
CONSTANTS
  CWordBits = 3
  MaxSize = 8
INVARIANTS RoundTrips CountRight RefusedOnlyTooLarge Injective
CHECK_DEADLOCK FALSE
