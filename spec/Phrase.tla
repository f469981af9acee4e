------------------------------- MODULE Phrase -------------------------------
(***************************************************************************)
(* The published recovery-phrase format, parametric in every field width    *)
(* and in the primitives, so that it can be checked exhaustively at toy     *)
(* sizes and executed at the real ones.                                     *)
(*                                                                          *)
(*   plaintext:  version | seed | offset | checksum                         *)
(*   encrypted:  version | enc(seed) | salt | verify | offset | checksum    *)
(*                                                                          *)
(* All fields are bit strings, most significant bit first.                  *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

CONSTANTS VersionBits, SeedBits, OffsetBits, CheckBits, SaltBits, VerifyBits, WordBits,
          Checksum(_),          \* payload bits -> CheckBits bits
          PwKey(_, _),          \* password, (salt \o offset) bits -> [key |-> _, verify |-> bits]
          Encipher(_, _),       \* key, seed bits -> bits
          Decipher(_, _)        \* key, bits -> seed bits

Plain == 0
Encrypted == 1
Supported == {Plain, Encrypted}

PayloadLen(v) == IF v = Plain
                 THEN VersionBits + SeedBits + OffsetBits + CheckBits
                 ELSE VersionBits + SeedBits + SaltBits + VerifyBits + OffsetBits + CheckBits
WordCount(v) == PayloadLen(v) \div WordBits

ASSUME WidthsFit == /\ PayloadLen(Plain) % WordBits = 0
                    /\ PayloadLen(Encrypted) % WordBits = 0
                    /\ VersionBits <= WordBits

(* ------------------------------------------------- bits <-> word indices *)
IndicesOf(bits) == [i \in 1..(Len(bits) \div WordBits) |->
                      BitsToNat(SubSeq(bits, (i - 1) * WordBits + 1, i * WordBits))]
BitsOf(indices) == Concat([i \in 1..Len(indices) |-> Bits(indices[i], WordBits)])

Sealed(payload) == IndicesOf(payload \o Checksum(payload))

(* -------------------------------------------------------------- encoding *)
PlainPhrase(seed, offset) ==
  Sealed(Bits(Plain, VersionBits) \o seed \o offset)

EncryptedPhrase(seed, offset, pw, salt) ==
  LET k == PwKey(pw, salt \o offset)
  IN Sealed(Bits(Encrypted, VersionBits) \o Encipher(k.key, seed) \o salt \o k.verify \o offset)

(* -------------------------------------------------------------- decoding *)
VersionOf(index) == index \div Pow2(WordBits - VersionBits)

Fields(indices) ==
  LET b == BitsOf(indices)
      n == Len(b)
      v == VersionOf(indices[1])
      at(from, len) == SubSeq(b, from + 1, from + len)
      saltAt == VersionBits + SeedBits
  IN [version  |-> v,
      body     |-> at(VersionBits, SeedBits),
      salt     |-> IF v = Plain THEN <<>> ELSE at(saltAt, SaltBits),
      verify   |-> IF v = Plain THEN <<>> ELSE at(saltAt + SaltBits, VerifyBits),
      offset   |-> at(n - CheckBits - OffsetBits, OffsetBits),
      checksum |-> at(n - CheckBits, CheckBits),
      payload  |-> at(0, n - CheckBits)]

(* What is wrong with a sequence of word indices; 0-1 marks a word outside the list.           *)
Unknown == -1
Defects(indices) ==
  LET n == Len(indices)
      bad == \E i \in 1..n : indices[i] = Unknown
      firstKnown == n > 0 /\ indices[1] # Unknown
      v == VersionOf(indices[1])
      badVersion == firstKnown /\ v \notin Supported
      badCount == IF firstKnown /\ ~badVersion THEN n # WordCount(v)
                  ELSE n \notin {WordCount(x) : x \in Supported}
      f == Fields(indices)
  IN (IF bad THEN {"badword"} ELSE {}) \cup
     (IF badVersion THEN {"version"} ELSE {}) \cup
     (IF badCount THEN {"wordcount"} ELSE {}) \cup
     (IF ~bad /\ ~badVersion /\ ~badCount /\ f.checksum # Checksum(f.payload)
      THEN {"checksum"} ELSE {})
WellFormed(indices) == Defects(indices) = {}

(* The answer to a password guess on an encrypted phrase's fields. *)
Guess(f, pw) ==
  LET k == PwKey(pw, f.salt \o f.offset)
  IN IF k.verify = f.verify
     THEN [ok |-> TRUE, seed |-> Decipher(k.key, f.body)]
     ELSE [ok |-> FALSE, err |-> "decrypt"]
=============================================================================
