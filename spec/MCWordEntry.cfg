SPECIFICATION Spec
CONSTANTS
  Completion <- tCompletion
  Letters <- tLetters
  Calls <- tCalls
  Alphabet = {97, 98, 99, 127, 68, 9, 13, 32, 3, 4, 65, 27}
  MaxBuf = 4
INVARIANT Inv
PROPERTY Steps
CHECK_DEADLOCK FALSE
