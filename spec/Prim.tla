-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* Primitives the specification takes as given.  Every operator here is     *)
(* overridden by java/Prim.java (JDK implementations); the definitions      *)
(* below only fix names and arities.  Byte strings are sequences over       *)
(* 0..255.                                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

SHA1(b) == CHOOSE x : TRUE
SHA256(b) == CHOOSE x : TRUE
SHA384(b) == CHOOSE x : TRUE
SHA512(b) == CHOOSE x : TRUE
HMACSHA256(k, m) == CHOOSE x : TRUE
S2KSHA256(pw, salt, count) == CHOOSE x : TRUE
AESEncrypt(k, b) == CHOOSE x : TRUE
AESDecrypt(k, b) == CHOOSE x : TRUE
AESCFBEncrypt(k, iv, b) == CHOOSE x : TRUE
Ed25519Public(seed) == CHOOSE x : TRUE
Ed25519Sign(seed, msg) == CHOOSE x : TRUE
Ed25519Verify(pub, msg, sig) == CHOOSE x : TRUE
X25519Public(k) == CHOOSE x : TRUE
Argon2idStandIn(pw, salt, t, m, p, len) == CHOOSE x : TRUE
AESCFBDecrypt(k, iv, b) == CHOOSE x : TRUE
Hex(s) == CHOOSE x : TRUE
ToHex(b) == CHOOSE x : TRUE
IndexIn(list, s) == CHOOSE x : TRUE
LowerCase(s) == CHOOSE x : TRUE
StringBytes(s) == CHOOSE x : TRUE
FirstWithPrefix(list, b) == CHOOSE x : TRUE
Pieces(hex) == CHOOSE x : TRUE
Trimmed(hex) == CHOOSE x : TRUE
Text(hex) == CHOOSE x : TRUE
TextHolds(text, part) == CHOOSE x : TRUE
Reveals(text, secret) == CHOOSE x : TRUE
=============================================================================
