------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* The real primitives and constants: the published derivation procedure.   *)
(***************************************************************************)
EXTENDS Bytes, Prim, TLC

(* ArgonFacts: outputs of the real Argon2id for the few runs that use it, as a   *)
(* function from "pw/salt/len" strings; every other run uses the stand-in.       *)
CONSTANT ArgonFacts
ArgonTime == 4
ArgonMemory == 524288
ArgonThreads == 2
Argon(pw, salt, len) ==
  LET key == ToHex(pw) \o "/" \o ToHex(salt) \o "/" \o ToString(len)
  IN IF key \in DOMAIN ArgonFacts THEN Hex(ArgonFacts[key])
     ELSE Argon2idStandIn(pw, salt, ArgonTime, ArgonMemory, ArgonThreads, len)

rChecksum(p) == Bits(CRC32(BitsToBytes(p))[2] % 32, 5)
rPwKey(pw, s) == LET k == Argon(Hex(pw), BitsToBytes(s), 17)
                 IN [key |-> SubSeq(k, 1, 16), verify |-> Bits(k[17] % 32, 5)]
rEncipher(k, b) == BytesToBits(AESEncrypt(k, BitsToBytes(b)))
rDecipher(k, b) == BytesToBits(AESDecrypt(k, BitsToBytes(b)))

EpochStart == <<0, 0, 0, 0, 99, 176, 205, 0>>        \* 1672531200, 2023-01-01T00:00:00Z
Unix(off) == AddBytes(EpochStart, BE(0, 4) \o BitsToBytes(<<0>> \o off))   \* 8 bytes
Unix4(off) == SubSeq(Unix(off), 5, 8)

Reverse8(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]

RootKey(bits, off) == Argon(BitsToBytes(bits), Unix4(off), 32)
HKDF32(root, info) == HMACSHA256(root, info \o <<1>>)
Info(label) == IF label[1] = "master" THEN StringBytes("mnemonikey master key")
               ELSE StringBytes("mnemonikey " \o label[1] \o " subkey") \o BE(label[2], 2)
(* Curve25519 scalars are clamped, and stored big-endian *)
Clamp(k) == [i \in 1..32 |-> IF i = 1 THEN k[1] - (k[1] % 8)
                             ELSE IF i = 32 THEN (k[32] % 64) + 64 ELSE k[i]]
SecretBytes(bits, off, label) ==
  LET k == HKDF32(RootKey(bits, off), Info(label))
  IN IF label[1] = "encryption" THEN Reverse8(Clamp(k)) ELSE k
rSecret(bits, off, label) == ToHex(SecretBytes(bits, off, label))
=============================================================================
