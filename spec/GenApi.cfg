SPECIFICATION GenSpec
CONSTANTS
  VersionBits = 2
  SeedBits = 2
  OffsetBits = 1
  CheckBits = 1
  SaltBits = 2
  SaltDraw = 2
  VerifyBits = 1
  WordBits = 3
  Checksum <- tChecksum
  PwKey <- tPwKey
  Encipher <- tEncipher
  Decipher <- tDecipher
  Secret <- tSecret
  KeyId <- tKeyId
  Instant <- tInstant
  TTLClass <- tTTLClass
  Expiry <- tExpiry
  Period <- tPeriod
  NoExpiry = ""
  UserId <- tUserId
  EmptyPw = ""
  Carries <- tCarries
  Enforced <- AllProps
  Passwords = {"p", "q", "r"}
  MaxSeeds = 2
  MaxPhrases = 2
  MaxDecs = 2
  MaxKeys = 0
  MaxExports = 0
  KeyOpts <- TwoOpts
  Ops = {"newseed", "genseed", "encplain", "encenc", "decode", "seedof", "decrypt"}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
