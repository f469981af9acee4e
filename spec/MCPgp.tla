------------------------------- MODULE MCPgp -------------------------------
(***************************************************************************)
(* The key sets of module Pgp, explored completely for a few seeds, times    *)
(* and periods, with the real primitives: whatever the caller makes,         *)
(* assembles, reassembles and encodes, in any order, an OpenPGP program      *)
(* reads back what the set refers to.  Also: writing and reading back        *)
(* lengths, packets, numbers and subpackets agree for all small values.      *)
(***************************************************************************)
EXTENDS Pgp

CONSTANTS MaxKeys, MaxOuts, MaxLen, SeedsPerKey

Facts == [x \in {} |-> x]
All27 == {"C27"}
(* the seeds of the n-th key; the second one of all begins with zeros *)
SeedNo(n, j) == IF j = 1 THEN [i \in 1..32 |-> i + 40 * n] ELSE [i \in 1..32 |-> IF i < 5 THEN 0 ELSE 255 - n]
Times == {<<0, 0, 0, 1>>, <<255, 255, 255, 255>>}
Periods == {"", "00000001"}
Uids == {<<>>, <<97, 32, 60, 98, 62>>}
KeyName == <<"k1", "k2", "k3", "k4", "k5">>[Cardinality(DOMAIN pkeys) + 1]
Order == <<"signing", "encryption", "authentication">>

Key(kind, seed, c, p) == [kind |-> kind, seed |-> seed, created |-> c, period |-> p, kdf |-> DefaultKdf]
Kinds == <<"master", "ed", "cv", "ed", "master">>
MakeCalls ==
  IF Cardinality(DOMAIN pkeys) >= MaxKeys THEN {}
  ELSE LET n == Cardinality(DOMAIN pkeys) + 1
           one(s, c, p) == LET k == Key(Kinds[n], s, c, p)
                           IN [op |-> "pkey", k |-> KeyName, kind |-> k.kind, seed |-> s, created |-> c, period |-> p, kdf |-> DefaultKdf,
                               r |-> [ok |-> TRUE, intact |-> TRUE, private |-> PrivateField(k), public |-> PublicPoint(k), fp |-> FingerprintOf(PubOf(k))]]
       IN {one(SeedNo(n, j), c, p) : j \in 1..SeedsPerKey, c \in Times, p \in Periods}
Named(kind) == {k \in DOMAIN pkeys : pkeys[k].kind = kind}
AllSets == {[m |-> m, e |-> e, a |-> a, s |-> s, uid |-> u] :
              m \in Named("master"), e \in Named("cv") \cup {""}, a \in Named("ed") \cup {""}, s \in Named("ed") \cup {""}, u \in Uids}
(* after the first encoding, the caller changes one member of the set and encodes again *)
Differ(x, y) == Cardinality({f \in DOMAIN x : x[f] # y[f]})
SetCalls ==
  {[op |-> "pset", s |-> "s1", set |-> x] :
     x \in IF Cardinality(DOMAIN pkeys) < MaxKeys \/ Cardinality(outs) >= MaxOuts THEN {}
           ELSE IF sets = PNoFn THEN AllSets
           ELSE IF outs = {} \/ (\A o \in outs : o.set # sets["s1"]) THEN {}
           ELSE {y \in AllSets : Differ(y, sets["s1"]) = 1}}
ExportCalls ==
  IF Cardinality(outs) >= MaxOuts THEN {}
  ELSE {[op |-> "pexport", s |-> s, mode |-> q[1], cert |-> q[2], pw |-> <<>>, order |-> Order,
         r |-> [ok |-> TRUE, intact |-> TRUE,
                bytes |-> BuildSet(sets[s], q[1], q[2], SelectSeq(Order, LAMBDA t : t \in Included(sets[s])))]] :
           s \in DOMAIN sets, q \in {<<"full", TRUE>>, <<"sub", TRUE>>, <<"sub", FALSE>>}}
PNext == \E e \in (IF sets = PNoFn THEN MakeCalls ELSE {}) \cup SetCalls \cup ExportCalls : PStep(e)
PSpec == PInit /\ [][PNext]_pvars

(* the wire format reads back what it writes *)
Filled(n) == [i \in 1..n |-> (i * 7) % 256]
LengthsAgree == \A n \in 0..MaxLen : LET b == LengthBytes(n) IN ReadLength(b, 1) = [ok |-> TRUE, len |-> n, size |-> Len(b)]
LengthsShortest == \A n \in 0..MaxLen : Len(LengthBytes(n)) = (IF n < 192 THEN 1 ELSE IF n < 8384 THEN 2 ELSE 5)
PacketsAgree == \A n \in {0, 1, 190, 191, 192, 193, 255, 256, 447, 448, 600} :
  LET b == Packet(5, Filled(n)) \o Packet(63, Filled(3)) \o Packet(13, Filled(n))
  IN Packets(b) = [ok |-> TRUE, packets |-> <<[tag |-> 5, body |-> Filled(n)], [tag |-> 63, body |-> Filled(3)], [tag |-> 13, body |-> Filled(n)]>>]
NumbersAgree == \A x \in 0..255, y \in 0..255 :
  LET v == StripZeros(<<x, y>>) IN ReadMPI(MPI(<<0, x, y>>), 1) = [ok |-> TRUE, val |-> v, size |-> 2 + Len(v)]
SubpacketsAgree == \A n \in {0, 1, 189, 190, 191, 192, 600}, t \in {2, 33, 127} :
  ReadSubs(Subpacket(t, Filled(n)) \o Subpacket(9, <<1>>), 1, <<>>)
    = [ok |-> TRUE, subs |-> <<[type |-> t, body |-> Filled(n)], [type |-> 9, body |-> <<1>>]>>]
ASSUME LengthsAgree /\ LengthsShortest /\ PacketsAgree /\ NumbersAgree /\ SubpacketsAgree
=============================================================================
