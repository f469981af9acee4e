--------------------------------- MODULE Pgp ---------------------------------
(***************************************************************************)
(* The pgp package on its own: keys made from arbitrary 32-byte seeds, each  *)
(* with its own times, assembled into key sets by the caller, and the        *)
(* building blocks of packets.                                               *)
(*                                                                           *)
(* The state is what the caller holds: keys, and key sets, which refer to    *)
(* keys and may share them.  Encoding a set signs anew: what comes out       *)
(* depends on what the set refers to now and on nothing else.                *)
(* Byte strings are sequences over 0..255; a period is "" (never expires) or *)
(* the hexadecimal of 4 bytes.                                               *)
(***************************************************************************)
EXTENDS OpenPGP

CONSTANT Enforced

VARIABLES pkeys, sets, outs
pvars == <<pkeys, sets, outs>>

PMust(cond) == ("C27" \in Enforced => cond) = TRUE
PNoFn == [x \in {} |-> x]
PPut(f, h, v) == (h :> v) @@ f
PInit == pkeys = PNoFn /\ sets = PNoFn /\ outs = {}

(* ------------------------------------------------------------------- keys *)
DefaultKdf == <<8, 7>>                     \* SHA-256, AES-128
Stored(k) == IF k.kind = "cv" THEN Reverse8(Clamp(k.seed)) ELSE k.seed
PublicPoint(k) == IF k.kind = "cv" THEN X25519Public(Clamp(k.seed)) ELSE Ed25519Public(k.seed)
PubOf(k) == IF k.kind = "cv" THEN PublicBody(k.created, AlgoECDH, OidCv25519, PublicPoint(k), <<3, 1>> \o k.kdf)
            ELSE PublicBody(k.created, AlgoEdDSA, OidEd25519, PublicPoint(k), <<>>)
(* the private key as the caller sees it in the key's Private field *)
PrivateField(k) == IF k.kind = "cv" THEN Clamp(k.seed) ELSE k.seed \o PublicPoint(k)

MakeKey(e) ==
  LET k == [kind |-> e.kind, seed |-> e.seed, created |-> e.created, period |-> e.period, kdf |-> e.kdf]
      good == Len(e.seed) = 32
  IN /\ PMust(/\ e.r.ok = good
              /\ ~good => e.r.err # "panic" /\ e.r.none
              /\ e.r.intact)
     /\ PMust(good => /\ e.r.private = PrivateField(k) /\ e.r.public = PublicPoint(k)
                      /\ e.r.fp = FingerprintOf(PubOf(k)))
     /\ pkeys' = IF good /\ e.r.ok THEN PPut(pkeys, e.k, k) ELSE pkeys
     /\ UNCHANGED <<sets, outs>>

(* the two tags are those of a main key and of a subkey *)
PublicTag(k) == IF k.kind = "master" THEN 6 ELSE 14
SecretTag(k) == IF k.kind = "master" THEN 5 ELSE 7

OnePacket(b, tag) == LET ps == Packets(b) IN IF ps.ok /\ Len(ps.packets) = 1 THEN ps.packets[1].tag = tag ELSE FALSE
(* a protected key packet: the public part in the clear, and under the password the secret *)
Protects(b, tag, pub, secret, pw) ==
  IF ~OnePacket(b, tag) THEN FALSE
  ELSE LET k == ReadKey(Packets(b).packets[1].body)
           s == IF k.ok THEN ReadSecret(k.sec) ELSE BadSecret
           u == IF s.form = "locked" THEN Unlock(s, pw) ELSE BadSecret
       IN /\ k.ok /\ s.form = "locked" /\ u.form = "clear"
          /\ k.pub = pub /\ u.secret = secret /\ ~Occurs(StripZeros(secret), b)

EncodeKey(e) ==
  LET k == pkeys[e.k]
      b == e.r.bytes
  IN /\ PMust(/\ e.r.ok /\ e.r.intact
              /\ CASE e.what = "public" -> b = Packet(PublicTag(k), PubOf(k))
                   [] e.what = "fingerprint" -> b = FingerprintOf(PubOf(k))
                   [] e.what = "stub" -> b = Packet(5, PubOf(k) \o GnuDummy)
                   [] e.what = "secret" /\ e.pw = <<>> -> b = Packet(SecretTag(k), SecretBody(PubOf(k), Stored(k)))
                   [] e.what = "secret" -> Protects(b, SecretTag(k), PubOf(k), Stored(k), e.pw)
                   [] e.what = "certify" -> b = Packet(2, BuildCert(k.seed, PubOf(k), e.uid, k.created, k.period)))
     /\ UNCHANGED pvars

(* ---------------------------------------------------------------- key sets *)
(* e.set = [m, e, a, s (key names, "" for none), uid] *)
Assemble(e) == sets' = PPut(sets, e.s, e.set) /\ UNCHANGED <<pkeys, outs>>

SubOf(set, t) == CASE t = "encryption" -> set.e [] t = "authentication" -> set.a [] t = "signing" -> set.s
Included(set) == {t \in {"encryption", "authentication", "signing"} : SubOf(set, t) # ""}
BuildSub(m, t, k) ==
  Packet(7, SecretBody(PubOf(k), Stored(k)))
  \o Packet(2, BuildBinding(m.seed, PubOf(m), t, k.seed, PubOf(k), k.created, k.period))
BuildSet(set, mode, cert, order) ==
  LET m == pkeys[set.m]
  IN Packet(5, IF mode = "sub" THEN PubOf(m) \o GnuDummy ELSE SecretBody(PubOf(m), Stored(m)))
     \o Packet(13, set.uid)
     \o (IF mode = "sub" /\ ~cert THEN <<>> ELSE Packet(2, BuildCert(m.seed, PubOf(m), set.uid, m.created, m.period)))
     \o Concat([i \in 1..Len(order) |-> BuildSub(m, order[i], pkeys[SubOf(set, order[i])])])

EncodeSet(e) ==
  LET set == sets[e.s]
      order == SelectSeq(e.order, LAMBDA t : t \in Included(set))
      want == BuildSet(set, e.mode, e.cert, order)
      x == ReadExport(e.r.bytes)
      hidden == {pkeys[SubOf(set, t)] : t \in Included(set)} \cup (IF e.mode = "full" THEN {pkeys[set.m]} ELSE {})
  IN /\ PMust(e.r.ok /\ e.r.intact)
     /\ PMust(e.pw = <<>> => e.r.bytes = want)
     /\ PMust(e.pw # <<>> => /\ x.ok
                             /\ x.msec.form = (IF e.mode = "sub" THEN "stub" ELSE "locked")
                             /\ \A i \in 1..Len(x.subs) : x.subs[i].sec.form = "locked"
                             /\ \A k \in hidden : ~Occurs(StripZeros(Stored(k)), e.r.bytes)
                             /\ Unlocked(x, e.pw) = want)
     /\ outs' = outs \cup {[set |-> set, m |-> pkeys[set.m], mode |-> e.mode, cert |-> e.cert, pw |-> e.pw, bytes |-> e.r.bytes]}
     /\ UNCHANGED <<pkeys, sets>>

(* --------------------------------------------------------- building blocks *)
HashWith(alg, b) == CASE alg = 8 -> SHA256(b) [] alg = 9 -> SHA384(b) [] alg = 10 -> SHA512(b)
SubsOf(list) == Subpackets([i \in 1..Len(list) |-> Subpacket(list[i].type, list[i].body)])
(* a signature as Sign makes it: the issuer and the time come first *)
SignedBody(e) ==
  LET pre == <<4, e.type, AlgoEdDSA, e.hash>> \o
             SubsOf(<<[type |-> 33, body |-> <<4>> \o e.fp], [type |-> 2, body |-> e.time]>> \o e.hashed)
      h == HashWith(e.hash, e.data \o pre \o <<4, 255>> \o BE(Len(pre), 4))
      sg == Ed25519Sign(e.seed, h)
  IN [hash |-> h, sig |-> sg,
      body |-> pre \o SubsOf(<<[type |-> 16, body |-> SubSeq(e.fp, Len(e.fp) - 7, Len(e.fp))]>> \o e.unhashed)
               \o Take(h, 1, 2) \o MPI(Take(sg, 1, 32)) \o MPI(Take(sg, 33, 32))]

(* string-to-key protection of any bytes *)
S2KOk(e) ==
  LET b == e.r.bytes
      pt == AESCFBDecrypt(S2KSHA256(e.pw, Take(b, 5, 8), S2KCount(b[13])), Take(b, 14, 16), From(b, 30))
  IN IF Len(b) < 29 THEN FALSE
     ELSE IF Take(b, 1, 4) # <<254, 9, 3, 8>> \/ b[13] < 192 THEN FALSE
     ELSE pt = MPI(e.data) \o SHA1(MPI(e.data))

Block(e) ==
  /\ PMust(/\ e.r.intact
           /\ CASE e.what = "packet" -> e.r.ok /\ e.r.bytes = Packet(e.tag, e.data)
                [] e.what = "subpacket" -> e.r.ok /\ e.r.bytes = Subpacket(e.tag, e.data)
                [] e.what = "mpi" -> e.r.ok /\ e.r.bytes = MPI(e.data)
                [] e.what = "uid" -> e.r.ok /\ e.r.bytes = e.uid /\ e.r.packet = Packet(13, e.uid)
                [] e.what = "kdf" -> e.r.ok /\ e.r.bytes = <<3, 1>> \o e.data
                [] e.what = "s2k" -> IF e.hash = 8 THEN e.r.ok /\ S2KOk(e) ELSE ~e.r.ok /\ e.r.err # "panic"
                [] e.what = "sign" -> LET w == SignedBody(e)
                                      IN /\ e.r.ok /\ e.r.bytes = w.body /\ e.r.packet = Packet(2, w.body) /\ e.r.hash = w.hash
                                         /\ Pad32(e.r.sigr) \o Pad32(e.r.sigs) = w.sig)
  /\ UNCHANGED pvars

PStep(e) ==
  CASE e.op = "pkey" -> MakeKey(e)
    [] e.op = "pencode" -> EncodeKey(e)
    [] e.op = "pset" -> Assemble(e)
    [] e.op = "pexport" -> EncodeSet(e)
    [] e.op = "pblock" -> Block(e)

(* --------------------------------------------------- over whole histories *)
(* what an OpenPGP program reads from an export is what the set refers to *)
ReadsBack(o) ==
  LET x == ReadExport(o.bytes)
      m == o.m
      period(sig) == LET p == SubBodies(sig.hashed, 9) IN IF p = <<>> THEN "" ELSE ToHex(p[1])
  IN /\ x.ok
     /\ x.uid = o.set.uid /\ x.master.pub = PubOf(m)
     /\ Len(x.certs) = (IF o.mode = "sub" /\ ~o.cert THEN 0 ELSE 1)
     /\ \A i \in 1..Len(x.certs) :
           /\ GoodSig(x.certs[i], 19, KeyData(PubOf(m)) \o UidData(o.set.uid), x.master, m.created)
           /\ period(x.certs[i]) = m.period
     /\ {SubType(x.subs[i]) : i \in 1..Len(x.subs)} = Included(o.set)
     /\ Len(x.subs) = Cardinality(Included(o.set))
     /\ \A i \in 1..Len(x.subs) :
           LET s == x.subs[i]
               k == pkeys[SubOf(o.set, SubType(s))]
               data == KeyData(PubOf(m)) \o KeyData(PubOf(k))
               back == SubBodies(s.sig.unhashed, 32)
           IN /\ s.key.pub = PubOf(k) /\ period(s.sig) = k.period
              /\ GoodSig(s.sig, 24, data, x.master, k.created)
              /\ SubType(s) = "signing" => Len(back) = 1 /\ GoodSig(ReadSig(back[1]), 25, data, s.key, k.created)
              /\ o.pw = <<>> => s.sec = [form |-> "clear", secret |-> Stored(k)]
     /\ x.msec = (IF o.mode = "sub" THEN [form |-> "stub"] ELSE IF o.pw = <<>> THEN [form |-> "clear", secret |-> m.seed] ELSE x.msec)
SetsReadBack == \A o \in outs : ReadsBack(o)
OneEncoding == \A x, y \in outs : x.pw = <<>> /\ y.pw = <<>> /\ x.set = y.set /\ x.mode = y.mode /\ x.cert = y.cert => x.bytes = y.bytes
PInv == PMust(SetsReadBack /\ OneEncoding)
=============================================================================
