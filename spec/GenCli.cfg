SPECIFICATION GenSpec
CONSTANTS
  VersionBits = 2
  SeedBits = 2
  OffsetBits = 1
  CheckBits = 1
  SaltBits = 2
  VerifyBits = 1
  WordBits = 3
  Checksum <- tChecksum
  PwKey <- tPwKey
  Encipher <- tEncipher
  Decipher <- tDecipher
  Completion <- tCompletion
  Letters <- tLetters
  Calls <- tCalls
  FileWords <- tFileWords
  LineWord <- tLineWord
  FeedLines <- tFeedLines
  KeyBytes <- tKeyBytes
  SeedOf <- tSeedOf
  Parent <- tParent
  Saved <- tSaved
  NoContent <- tNoContent
  PartOf <- tPartOf
  Target <- tTarget
  Configs <- FileConfigs
  MaxRuns = 2
  MaxCreations = 1
  LinesOffered = {"0", "1", "2", "3", "4", "6", "x"}
  PasswordsOffered = {"p", "q"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
