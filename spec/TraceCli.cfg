SPECIFICATION TraceSpec
CONSTANTS
  VersionBits = 4
  SeedBits = 128
  OffsetBits = 31
  CheckBits = 5
  SaltBits = 19
  VerifyBits = 5
  WordBits = 12
  Checksum <- rChecksum
  PwKey <- rPwKey
  Encipher <- rEncipher
  Decipher <- rDecipher
  Completion <- rCompletion
  Letters <- rLetters
  Calls <- rCalls
  FileWords <- rFileWords
  LineWord <- rLineWord
  FeedLines <- rFeedLines
  KeyBytes <- rKeyBytes
  SeedOf <- rSeedOf
  Parent <- rParent
  Saved <- rSaved
  NoContent = ""
  PartOf <- rPartOf
  Target <- rTarget
  ArgonFacts <- Facts
  Enforced <- PropUnderCheck
ALIAS Where
CHECK_DEADLOCK TRUE
