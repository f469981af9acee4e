-------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Numbers, bits and bytes.  A byte string is a sequence over 0..255, a bit *)
(* string a sequence over 0..1, both most significant first.  TLC integers  *)
(* are 32 bit wide, so anything that may reach 2^31 is kept as bits/bytes.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* width-w big-endian bits of a natural number < 2^31 *)
Bits(n, w) == [i \in 1..w |-> IF w - i > 30 THEN 0 ELSE (n \div Pow2(w - i)) % 2]
(* the natural number of a bit string (must be < 2^31) *)
BitsToNat(b) == FoldLeft(LAMBDA acc, x : 2 * acc + x, 0, b)

BytesToBits(bs) == [i \in 1..(8 * Len(bs)) |->
                      (bs[((i - 1) \div 8) + 1] \div Pow2(7 - ((i - 1) % 8))) % 2]
Zeros(n) == [i \in 1..n |-> 0]
(* right-aligned into ceil(len/8) bytes: the first byte carries leading zero bits *)
BitsToBytes(b) ==
  LET n == (Len(b) + 7) \div 8
      p == Zeros(8 * n - Len(b)) \o b
  IN [i \in 1..n |-> BitsToNat(SubSeq(p, 8 * i - 7, 8 * i))]

(* w-byte big-endian encoding of a natural number < 2^31 *)
BE(n, w) == [i \in 1..w |-> IF w - i > 3 THEN 0 ELSE (n \div Pow2(8 * (w - i))) % 256]
(* the number of a byte string of value < 2^31 *)
BEToNat(bs) == FoldLeft(LAMBDA acc, x : 256 * acc + x, 0, bs)

(* a + b on equally long big-endian byte strings, modulo 256^len *)
AddBytes(a, b) ==
  LET RECURSIVE go(_, _, _)
      go(i, c, acc) == IF i = 0 THEN acc
                       ELSE LET s == a[i] + b[i] + c IN go(i - 1, s \div 256, <<s % 256>> \o acc)
  IN go(Len(a), 0, <<>>)

(* a < b on equally long big-endian strings (bits or bytes) *)
LessSeq(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

(* significant length of a bit string: without leading zeros *)
BitLen(b) == LET ones == {i \in 1..Len(b) : b[i] = 1}
             IN IF ones = {} THEN 0 ELSE Len(b) + 1 - (CHOOSE i \in ones : \A j \in ones : i <= j)

StripZeros(bs) ==
  LET nz == {i \in 1..Len(bs) : bs[i] # 0}
  IN IF nz = {} THEN <<>> ELSE SubSeq(bs, CHOOSE i \in nz : \A j \in nz : i <= j, Len(bs))

(* number of significant bits of a byte > 0 *)
ByteBitLen(x) == CHOOSE n \in 1..8 : Pow2(n - 1) <= x /\ x < Pow2(n)

Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

(* does needle occur in hay as a contiguous block? *)
Occurs(needle, hay) ==
  \E i \in 1..(Len(hay) - Len(needle) + 1) :
     /\ hay[i] = needle[1]
     /\ SubSeq(hay, i, i + Len(needle) - 1) = needle

XorBits(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]

----------------------------------------------------------------------------
(* CRC-32 (IEEE 802.3, reflected), kept as two 16-bit halves <<hi, lo>>.     *)
CrcPoly == <<60856, 33568>>           \* 0xEDB8, 0x8320
CrcShift(c) == <<c[1] \div 2, (c[2] \div 2) + 32768 * (c[1] % 2)>>
RECURSIVE CrcEntry(_, _)
CrcEntry(c, k) ==
  IF k = 0 THEN c
  ELSE LET s == CrcShift(c)
       IN CrcEntry(IF c[2] % 2 = 1 THEN <<s[1] ^^ CrcPoly[1], s[2] ^^ CrcPoly[2]>> ELSE s, k - 1)
CrcTable == [b \in 0..255 |-> CrcEntry(<<0, b>>, 8)]
CrcByte(c, b) ==
  LET t == CrcTable[(c[2] % 256) ^^ b]
  IN <<(c[1] \div 256) ^^ t[1], ((c[2] \div 256) + 256 * (c[1] % 256)) ^^ t[2]>>
CRC32(bs) == LET c == FoldLeft(CrcByte, <<65535, 65535>>, bs) IN <<65535 - c[1], 65535 - c[2]>>

(* CRC-24 of OpenPGP armor *)
RECURSIVE Crc24Bits(_, _)
Crc24Bits(c, k) ==
  IF k = 0 THEN c
  ELSE LET s == 2 * c IN Crc24Bits(IF s >= 16777216 THEN (s ^^ 25578747) ELSE s, k - 1)
CRC24(bs) == FoldLeft(LAMBDA c, b : Crc24Bits(c ^^ (b * 65536), 8), 11994318, bs)
=============================================================================
