SPECIFICATION Spec
CONSTANTS
  Chars = {48, 49, 57, 100, 87, 109, 89, 45, 44, 120}
  MaxLen = 5
INVARIANTS TTLRight IndexRight CommasRight
CHECK_DEADLOCK FALSE
