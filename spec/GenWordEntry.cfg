SPECIFICATION Spec
CONSTANTS
  VersionBits = 4
  SeedBits = 128
  OffsetBits = 31
  CheckBits = 5
  SaltBits = 19
  VerifyBits = 5
  WordBits = 12
  Checksum <- rChecksum
  PwKey <- rPwKey
  Encipher <- rEncipher
  Decipher <- rDecipher
  Completion <- rCompletion
  Letters <- rLetters
  Calls <- rCalls
  ArgonFacts <- Facts
INVARIANT Emit
CHECK_DEADLOCK FALSE
