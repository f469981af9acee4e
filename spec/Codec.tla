-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The word codec: integers <-> word indices <-> words, for every size.     *)
(* Integers are bit strings without leading zeros.  Parametric in the word   *)
(* width, so that MCCodec can check the laws exhaustively at toy widths and  *)
(* TraceApi can execute it at the real one.                                  *)
(***************************************************************************)
EXTENDS Bytes

CONSTANTS CWordBits

CountFor(size) == (size + CWordBits - 1) \div CWordBits
CIndices(bits) == [i \in 1..(Len(bits) \div CWordBits) |->
                     BitsToNat(SubSeq(bits, (i - 1) * CWordBits + 1, i * CWordBits))]
CBits(idx) == Concat([i \in 1..Len(idx) |-> Bits(idx[i], CWordBits)])
Significant(b) == SubSeq(b, Len(b) + 1 - BitLen(b), Len(b))

(* integer, size -> indices; only for integers that fit *)
FitsSize(val, size) == Len(val) <= size
ToIndices(val, size) == CIndices(Zeros(CountFor(size) * CWordBits - Len(val)) \o val)
FromIndices(idx) == Significant(CBits(idx))
GoodIndices(idx) == \A i \in 1..Len(idx) : idx[i] < Pow2(CWordBits)
=============================================================================
