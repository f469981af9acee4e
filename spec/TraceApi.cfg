SPECIFICATION TraceSpec
CONSTANTS
  VersionBits = 4
  SeedBits = 128
  OffsetBits = 31
  CheckBits = 5
  SaltBits = 19
  SaltDraw = 24
  VerifyBits = 5
  WordBits = 12
  CWordBits = 12
  Checksum <- rChecksum
  PwKey <- rPwKey
  Encipher <- rEncipher
  Decipher <- rDecipher
  Secret <- rSecret
  KeyId <- rKeyId
  Instant <- rInstant
  TTLClass <- rTTLClass
  Expiry <- rExpiry
  Period <- rPeriod
  NoExpiry = ""
  UserId <- rUserId
  EmptyPw = ""
  Carries <- rCarries
  ArgonFacts <- Facts
  Enforced <- PropUnderCheck
INVARIANT Inv
ALIAS Where
CHECK_DEADLOCK TRUE
