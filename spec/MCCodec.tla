------------------------------- MODULE MCCodec -------------------------------
(***************************************************************************)
(* The codec's laws, exhaustively at a toy word width: a machine that picks *)
(* an integer and a size, encodes, decodes, and encodes again.              *)
(***************************************************************************)
EXTENDS Codec, FiniteSets

CONSTANTS MaxSize
VARIABLES val, size, idx, back, pc
cvars == <<val, size, idx, back, pc>>

Integers == {Significant(b) : b \in UNION {[1..n -> {0, 1}] : n \in 0..MaxSize}}
CInit == /\ val \in Integers /\ size \in 0..(MaxSize + CWordBits)
         /\ idx = <<>> /\ back = <<>> /\ pc = "start"
Encode == /\ pc = "start"
          /\ IF FitsSize(val, size) THEN idx' = ToIndices(val, size) /\ pc' = "encoded"
             ELSE idx' = idx /\ pc' = "refused"
          /\ UNCHANGED <<val, size, back>>
Decode == /\ pc = "encoded" /\ back' = FromIndices(idx) /\ pc' = "decoded" /\ UNCHANGED <<val, size, idx>>
(* the caller re-pads by whole words: the integer does not change *)
Repad == /\ pc = "decoded" /\ size <= MaxSize
         /\ size' = size + CWordBits /\ idx' = <<0>> \o idx /\ pc' = "padded" /\ UNCHANGED <<val, back>>
CNext == Encode \/ Decode \/ Repad
CSpec == CInit /\ [][CNext]_cvars

RoundTrips == /\ pc = "decoded" => back = val
              /\ pc = "padded" => FromIndices(idx) = val /\ idx = ToIndices(val, size)
CountRight == pc \in {"encoded", "decoded"} =>
                 /\ Len(idx) * CWordBits >= size /\ (Len(idx) - 1) * CWordBits < size
                 /\ GoodIndices(idx)
RefusedOnlyTooLarge == pc = "refused" <=> pc # "start" /\ Len(val) > size
(* two integers never share an encoding of the same size *)
Injective == pc = "start" => \A v \in Integers :
               (FitsSize(v, size) /\ FitsSize(val, size) /\ ToIndices(v, size) = ToIndices(val, size)) => v = val
=============================================================================
