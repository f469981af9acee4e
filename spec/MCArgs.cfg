SPECIFICATION Spec
CONSTANTS
  Tokens = {"generate", "recover", "convert", "Generate", "help", "-h", "--help", "-name", "--ttl", "-enc-index", "x", "7", "", "-", "--", "---h", "-=1", "-verbose", "--verbose=no", "-self-cert=F", "-name=-h", "-out-word-file=w"}
  MaxArgs = 3
INVARIANTS Sane CommandFirst HelpWins HelpFirst NoStrays LastCounts Spellings Terminator
CHECK_DEADLOCK FALSE
