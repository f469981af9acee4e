----------------------------- MODULE Mnemonikey -----------------------------
(***************************************************************************)
(* The mnemonikey library as a state machine.                               *)
(*                                                                          *)
(* The state is what a caller holds: seeds, recovery phrases, decoded       *)
(* phrases, keys and exports.  Every public call is one atomic step, an     *)
(* event e carrying the call's arguments and - in e.r - its result.         *)
(* Step(e) says which results are allowed.  Each condition is labelled      *)
(* with the property it belongs to by Must(p, cond), and is enforced when   *)
(* p is in Enforced:                                                        *)
(*  - model checking runs with Enforced = all properties and lets TLC pick  *)
(*    every call and every allowed result (MCMnemonikey);                   *)
(*  - trace validation runs with Enforced = {the property under check} and  *)
(*    takes calls and results from the implementation (TraceApi).           *)
(* What is not enforced is recorded as observed, so that a defect that      *)
(* concerns another property does not stop the check of this one.           *)
(*                                                                          *)
(* Ghost fields (org, off) carry where a value came from: org names the     *)
(* entropy a seed stands for; it travels through phrases, decoding and      *)
(* decryption with the right password, independently of the bits observed.  *)
(***************************************************************************)
EXTENDS Phrase, TLC

CONSTANTS Enforced,             \* the properties whose conditions are enforced
          Secret(_, _, _),      \* seed bits, offset bits, label -> secret key
          KeyId(_, _, _),       \* label, secret key, offset bits -> fingerprint
          Instant(_),           \* offset bits -> point in time as observed
          TTLClass(_),          \* "none", "ok", "negative", "unrepresentable"
          Expiry(_, _),         \* offset bits, ttl -> expiry as observed
          NoExpiry,
          Period(_),            \* ttl -> validity period as carried by signatures
          UserId(_, _),         \* name, email -> user ID
          EmptyPw,              \* the empty password
          SaltDraw,             \* bits drawn from the source for a salt (whole bytes)
          Carries(_, _)         \* does this payload carry this seed in the clear?

VARIABLES seeds, phrases, decs, keys, exports
vars == <<seeds, phrases, decs, keys, exports>>

(* "= TRUE" makes TLC evaluate cond as a value, never as a choice of next states. *)
Must(p, cond) == (p \in Enforced => cond) = TRUE

Types == {"encryption", "authentication", "signing"}
NoFn == [x \in {} |-> x]        \* the empty function
Put(f, h, v) == (h :> v) @@ f

Init == /\ seeds = NoFn /\ phrases = NoFn /\ decs = NoFn /\ keys = NoFn
        /\ exports = {}

NoPanic(p, e) == Must(p, e.r.ok \/ e.r.err # "panic")
(* Arguments are left alone by every call. *)
Intact(e) == Must("C16", e.r.intact)

-----------------------------------------------------------------------------
(* Seeds                                                                     *)

(* construct from an integer: sign, significant bits *)
NewSeed(e) ==
  LET valid == ~e.neg /\ Len(e.val) <= SeedBits /\ e.era = 0
  IN /\ Must("C17", e.r.ok = valid)
     /\ NoPanic("C17", e)
     /\ Intact(e)
     /\ e.r.ok => /\ Must("C17", /\ e.r.seed = Zeros(SeedBits - Len(e.val)) \o e.val
                                 /\ e.r.same /\ e.r.era = e.era)
                  \* what the seed is, not what it says it is
                  /\ seeds' = Put(seeds, e.h, [bits |-> IF valid THEN Zeros(SeedBits - Len(e.val)) \o e.val ELSE e.r.seed,
                                               era |-> e.r.era, org |-> <<"own", e.h>>])
     /\ ~e.r.ok => seeds' = seeds
     /\ UNCHANGED <<phrases, decs, keys, exports>>

(* draw from a random source which supplies e.src and then ends or fails *)
GenerateSeed(e) ==
  LET enough == Len(e.src) >= SeedBits
  IN /\ Must("C17", e.r.ok = enough)
     /\ NoPanic("C17", e)
     /\ e.r.ok => /\ Must("C17", /\ e.r.seed = SubSeq(e.src, 1, SeedBits)
                                 /\ e.r.same /\ e.r.era = 0 /\ e.r.used = SeedBits)
                  /\ seeds' = Put(seeds, e.h, [bits |-> IF enough THEN SubSeq(e.src, 1, SeedBits) ELSE e.r.seed, era |-> e.r.era, org |-> <<"own", e.h>>])
     /\ ~e.r.ok => seeds' = seeds
     /\ UNCHANGED <<phrases, decs, keys, exports>>

-----------------------------------------------------------------------------
(* Phrases.  The seed and offset to encode come from a seed and an explicit  *)
(* offset (via = "seed") or from a key (via = "key").  e.off may be wider    *)
(* than OffsetBits.                                                          *)
EncSeed(e) == IF e.via = "key" THEN [bits |-> keys[e.h].bits, org |-> keys[e.h].org]
              ELSE [bits |-> seeds[e.h].bits, org |-> seeds[e.h].org]
EncOffset(e) == IF e.via = "key" THEN Zeros(Len(e.off) - OffsetBits) \o keys[e.h].off ELSE e.off
Fits(off) == \A i \in 1..(Len(off) - OffsetBits) : off[i] = 0
Low(off) == SubSeq(off, Len(off) - OffsetBits + 1, Len(off))

InList(ws) == \A i \in 1..Len(ws) : ws[i] # Unknown

EncodePlain(e) ==
  LET s == EncSeed(e)
      off == EncOffset(e)
      valid == Fits(off)
  IN /\ Must("C01", valid => e.r.ok)
     /\ Must("C03", valid => e.r.ok)
     /\ Must("C09", e.r.ok = valid)
     /\ NoPanic("C09", e)
     /\ Intact(e)
     /\ e.r.ok => /\ Must("C01", Len(e.r.ws) = WordCount(Plain) /\ InList(e.r.ws))
                  /\ Must("C03", e.r.ws = PlainPhrase(s.bits, Low(off)))
                  /\ phrases' = Put(phrases, e.p, [ws |-> e.r.ws, bits |-> s.bits, org |-> s.org, off |-> Low(off),
                                                   enc |-> FALSE, pw |-> EmptyPw, src |-> <<>>])
     /\ ~e.r.ok => phrases' = phrases
     /\ UNCHANGED <<seeds, decs, keys, exports>>

EncodeEncrypted(e) ==
  LET s == EncSeed(e)
      off == EncOffset(e)
      saltless == Len(e.src) < SaltDraw
      valid == Fits(off) /\ e.pw # EmptyPw /\ ~saltless
  IN /\ Must("C02", valid => e.r.ok)
     /\ Must("C03", valid => e.r.ok)
     /\ Must("C05", e.pw = EmptyPw => ~e.r.ok)
     /\ Must("C09", Fits(off) \/ ~e.r.ok)
     /\ Must("C17", saltless => ~e.r.ok)
     /\ Must("C17", valid => e.r.ok)
     /\ NoPanic("C09", e)
     /\ Must("C05", e.pw = EmptyPw /\ Fits(off) => e.r.err # "panic")
     /\ Must("C17", saltless /\ Fits(off) => e.r.err # "panic")
     /\ Intact(e)
     /\ e.r.ok =>
          LET wf == InList(e.r.ws) /\ Len(e.r.ws) = WordCount(Encrypted)
              f == Fields(e.r.ws)
          IN /\ Must("C02", wf)
             /\ Must("C03", wf /\ e.r.ws = EncryptedPhrase(s.bits, Low(off), e.pw, f.salt))
             \* the phrase does not carry the seed in the clear, at any position
             /\ Must("C05", wf => ~Carries(f.payload, s.bits))
             \* the salt is the source's: the low bits of its first draw
             /\ Must("C17", wf /\ valid => f.salt = SubSeq(e.src, SaltDraw - SaltBits + 1, SaltDraw))
             /\ phrases' = Put(phrases, e.p, [ws |-> e.r.ws, bits |-> s.bits, org |-> s.org, off |-> Low(off),
                                              enc |-> TRUE, pw |-> e.pw, src |-> e.src])
     /\ ~e.r.ok => phrases' = phrases
     /\ UNCHANGED <<seeds, decs, keys, exports>>

(* The salts of many phrases: e.salts holds them as numbers (-1 where no phrase came back) and   *)
(* e.draws the numbers the source supplied.                                                      *)
SaltSweep(e) ==
  /\ Must("C17", /\ Len(e.salts) = Len(e.draws)
                 /\ \A i \in 1..Len(e.salts) : e.salts[i] = e.draws[i] % Pow2(SaltBits))
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* Decoding.  e.ws are the word indices offered (Unknown for foreign words). *)
Sources(ws) == {p \in DOMAIN phrases : phrases[p].ws = ws}

DecodeOk(e, ok, err) ==      \* shared by every call that decodes
  LET d == Defects(e.ws)
  IN /\ ok => d = {}
     /\ d # {} => ~ok /\ err \in d

(* a digest of what the decoded phrase gives away when asked, where it is known *)
YieldOf(r) == IF "yield" \in DOMAIN r THEN r.yield ELSE ""

Decode(e) ==
  LET src == Sources(e.ws)
      f == Fields(e.ws)
  IN /\ Must("C04", /\ e.r.ok = WellFormed(e.ws)
                    /\ ~e.r.ok => e.r.err \in Defects(e.ws) /\ e.r.none)
     /\ NoPanic("C04", e)
     /\ Intact(e)
     /\ Must("C03", WellFormed(e.ws) =>
               /\ e.r.ok /\ e.r.version = f.version /\ e.r.encrypted = (f.version = Encrypted)
               /\ e.r.off = Zeros(Len(e.r.off) - OffsetBits) \o f.offset)
     /\ \A p \in src :
          LET ph == phrases[p]
              id == IF ph.enc THEN "C02" ELSE "C01"
          IN /\ Must(id, /\ e.r.ok /\ e.r.encrypted = ph.enc
                         /\ Fits(e.r.off) /\ Low(e.r.off) = ph.off
                         /\ e.r.created = Instant(ph.off))
             /\ Must("C09", e.r.ok => e.r.created = Instant(ph.off))
     /\ e.r.ok =>
          decs' = Put(decs, e.d,
                  [ws |-> e.ws, encrypted |-> e.r.encrypted, off |-> e.r.off, created |-> e.r.created,
                   \* the offset this phrase is known to stand for
                   soff |-> IF src = {} THEN Low(e.r.off) ELSE phrases[CHOOSE p \in src : TRUE].off,
                   src |-> src, yield |-> YieldOf(e.r)])
     /\ ~e.r.ok => decs' = decs
     /\ UNCHANGED <<seeds, phrases, keys, exports>>

(* One place of a phrase with one word after the other in it: e.outs[i] is "" where the phrase with   *)
(* e.alts[i] at e.at was accepted, and the defect named where it was not.                             *)
WordSweep(e) ==
  /\ Must("C04", \A i \in 1..Len(e.alts) :
                   LET d == Defects([e.ws EXCEPT ![e.at] = e.alts[i]])
                   IN IF d = {} THEN e.outs[i] = "" ELSE e.outs[i] \in d)
  /\ UNCHANGED vars

(* The version of a first word (e.w an index). *)
ParseVersion(e) ==
  LET good == e.w # Unknown /\ VersionOf(e.w) \in Supported
  IN /\ Must("C04", /\ e.r.ok = good
                    /\ good => e.r.version = VersionOf(e.w) /\ e.r.size = WordCount(VersionOf(e.w))
                               /\ e.r.encrypted = (VersionOf(e.w) = Encrypted)
                    /\ ~good => e.r.err = (IF e.w = Unknown THEN "badword" ELSE "version"))
     /\ UNCHANGED vars

(* What a version number says of its phrases (e.v small enough, or -1 for one beyond every known one). *)
VersionInfo(e) ==
  /\ Must("C04", IF e.v \in Supported
                 THEN e.r.era = 0 /\ e.r.size = WordCount(e.v) /\ e.r.encrypted = (e.v = Encrypted)
                 ELSE e.r.era = -1 /\ ~e.r.encrypted)
  /\ UNCHANGED vars

(* Where does the seed a decoded phrase yields under password pw come from? *)
YieldOrigin(dec, pw) ==
  IF dec.src = {} THEN <<"foreign", dec.ws, pw>>
  ELSE LET mine == {p \in dec.src : ~phrases[p].enc \/ phrases[p].pw = pw}
       IN IF mine # {} THEN phrases[CHOOSE p \in mine : TRUE].org ELSE <<"wrong", dec.ws, pw>>

Yield(e, pw) ==
  LET dec == decs[e.d]
      org == YieldOrigin(dec, pw)
  IN seeds' = Put(seeds, e.h, [bits |-> e.r.seed, era |-> e.r.era, org |-> org])

SeedOf(e) ==
  LET dec == decs[e.d]
      f == Fields(dec.ws)
      isEnc == f.version = Encrypted
  IN /\ Must("C05", isEnc => ~e.r.ok /\ e.r.err = "decrypt" /\ e.r.none)
     /\ Must("C03", ~isEnc => e.r.ok /\ e.r.seed = f.body /\ e.r.era = 0)
     /\ \A p \in dec.src : ~phrases[p].enc =>
           Must("C01", e.r.ok /\ e.r.seed = phrases[p].bits /\ e.r.same /\ e.r.era = 0)
     /\ e.r.ok => Yield(e, EmptyPw)
     /\ ~e.r.ok => seeds' = seeds
     /\ UNCHANGED <<phrases, decs, keys, exports>>

Decrypt(e) ==
  LET dec == decs[e.d]
      f == Fields(dec.ws)
      isEnc == f.version = Encrypted
      g == Guess(f, e.pw)
  IN /\ Must("C03", isEnc /\ g.ok => e.r.ok /\ e.r.seed = g.seed /\ e.r.era = 0)
     /\ Must("C03", ~isEnc => e.r.ok /\ e.r.seed = f.body)
     /\ Must("C05", isEnc => /\ e.r.ok = g.ok
                             /\ ~g.ok => e.r.err = "decrypt" /\ e.r.none
                             /\ g.ok => e.r.seed = g.seed)
     /\ \A p \in dec.src :
           /\ ~phrases[p].enc => Must("C01", e.r.ok /\ e.r.seed = phrases[p].bits /\ e.r.same)
           /\ phrases[p].enc /\ phrases[p].pw = e.pw =>
                Must("C02", e.r.ok /\ e.r.seed = phrases[p].bits /\ e.r.same /\ e.r.era = 0)
           /\ phrases[p].enc /\ phrases[p].pw # e.pw =>
                Must("C05", e.r.ok => e.r.seed # phrases[p].bits \/ Encipher(PwKey(e.pw, f.salt \o f.offset).key, phrases[p].bits) = f.body)
     /\ NoPanic("C02", e) /\ NoPanic("C05", e)
     /\ Intact(e)
     /\ e.r.ok => Yield(e, e.pw)
     /\ ~e.r.ok => seeds' = seeds
     /\ UNCHANGED <<phrases, decs, keys, exports>>

-----------------------------------------------------------------------------
(* Keys.                                                                     *)
Selected(o) == IF o.all THEN Types ELSE {t \in Types : \E i \in 1..Len(o.list) : o.list[i] = t}
Index(o, t) == CASE t = "encryption" -> o.enc [] t = "authentication" -> o.auth [] t = "signing" -> o.sig
Master == <<"master">>
Label(o, t) == <<t, Index(o, t)>>

(* What accessors report: created, expiry, uid, fp, types (in order), fps;  *)
(* strays: fingerprints of what is no subkey type at all                    *)
KeyObserved(e, bits, off) ==
  LET o == e.opts
      x == e.r.obs
  IN /\ Must("C09", x.created = Instant(off))
     /\ Must("C10", x.expiry = (IF TTLClass(o.ttl) = "none" THEN NoExpiry ELSE Expiry(off, o.ttl)))
     /\ Must("C14", /\ x.uid = UserId(o.name, o.email)
                    /\ {x.types[i] : i \in 1..Len(x.types)} = Selected(o)
                    /\ Len(x.types) = Cardinality(Selected(o))
                    /\ \A t \in Types : (t \notin Selected(o)) <=> (x.fps[t] = "")
                    /\ x.strays = "")
     /\ Must("C07", /\ x.fp = KeyId(Master, Secret(bits, off, Master), off)
                    /\ \A t \in Selected(o) :
                          x.fps[t] = KeyId(Label(o, t), Secret(bits, off, Label(o, t)), off))

(* C08: each key is determined by (entropy, time, label) alone, and distinct ones never meet. *)
Labelled(k) == {[bits |-> keys[k].bits, off |-> keys[k].off, label |-> Master, fp |-> keys[k].obs.fp]} \cup
               {[bits |-> keys[k].bits, off |-> keys[k].off, label |-> Label(keys[k].opts, t), fp |-> keys[k].obs.fps[t]] :
                  t \in {u \in Selected(keys[k].opts) : keys[k].obs.fps[u] # ""}}
Same(a, b) == a.bits = b.bits /\ a.off = b.off /\ a.label = b.label
Independence ==
  \A k1, k2 \in DOMAIN keys : \A a \in Labelled(k1), b \in Labelled(k2) : (a.fp = b.fp) <=> Same(a, b)

(* C06: equal origin, time and options give equal keys. *)
SameOpts(o1, o2) == /\ o1.name = o2.name /\ o1.email = o2.email /\ o1.ttl = o2.ttl
                    /\ Selected(o1) = Selected(o2)
                    /\ \A t \in Selected(o1) : Index(o1, t) = Index(o2, t)
Twins(k1, k2) == /\ keys[k1].org = keys[k2].org /\ keys[k1].soff = keys[k2].soff
                 /\ SameOpts(keys[k1].opts, keys[k2].opts)
RecoveredKeysAgree ==
  /\ \A k1, k2 \in DOMAIN keys : Twins(k1, k2) => keys[k1].obs = keys[k2].obs
  /\ \A x, y \in exports :
       (x.req.pw = EmptyPw /\ y.req.pw = EmptyPw /\ x.req = y.req /\ Twins(x.k, y.k)) => x.val = y.val

TTLBad(o) == TTLClass(o.ttl) \in {"negative", "unrepresentable"}

(* e.at = [cls |-> "early"/"in"/"late", off |-> floored offset] ; e.d names the decoded phrase   *)
(* whose creation time was used, or "".                                                          *)
NewKey(e) ==
  LET s == seeds[e.h]
      o == e.opts
      off == e.at.off
      valid == e.at.cls = "in" /\ ~TTLBad(o)
  IN /\ Must("C09", /\ ~TTLBad(o) => e.r.ok = (e.at.cls = "in")
                    /\ e.at.cls # "in" => ~e.r.ok /\ (e.r.err = e.at.cls \/ (TTLBad(o) /\ e.r.err # "panic")))
     /\ Must("C10", /\ e.at.cls = "in" => e.r.ok = ~TTLBad(o)
                    /\ TTLBad(o) => ~e.r.ok)
     /\ Must("C06", valid => e.r.ok)
     /\ Must("C07", valid => e.r.ok)
     /\ Must("C08", valid => e.r.ok)
     /\ Must("C14", valid => e.r.ok)
     /\ NoPanic("C09", e) /\ NoPanic("C10", e)
     /\ Intact(e)
     /\ e.r.ok => /\ KeyObserved(e, s.bits, off)
                  /\ keys' = Put(keys, e.k, [bits |-> s.bits, off |-> off, org |-> s.org,
                                             soff |-> IF e.d = "" THEN off ELSE decs[e.d].soff,
                                             opts |-> o, obs |-> e.r.obs])
     /\ ~e.r.ok => keys' = keys
     /\ UNCHANGED <<seeds, phrases, decs, exports>>

(* One subkey type at every index: e.fps[i + 1] is the fingerprint at index i ("" where none came     *)
(* back).  All are different, and those at e.close are recomputed.                                    *)
IndexSweep(e) ==
  /\ Must("C08", /\ Cardinality({e.fps[i] : i \in 1..Len(e.fps)}) = Len(e.fps)
                 /\ \A i \in 1..Len(e.fps) : e.fps[i] # ""
                 /\ \A i \in 1..Len(e.close) :
                       LET l == <<e.type, e.close[i]>>
                       IN e.fps[e.close[i] + 1] = KeyId(l, Secret(e.seed, e.off, l), e.off))
  /\ UNCHANGED vars

(* Decode (and decrypt) a phrase and derive its keys in one call. *)
Recover(e) ==
  LET f == Fields(e.ws)
      o == e.opts
      wf == WellFormed(e.ws)
      isEnc == wf /\ f.version = Encrypted
      withPw == e.op = "recenc"
      g == IF isEnc THEN IF withPw THEN Guess(f, e.pw) ELSE [ok |-> FALSE, err |-> "decrypt"]
           ELSE [ok |-> TRUE, seed |-> f.body]
      src == Sources(e.ws)
      mine == {p \in src : ~phrases[p].enc \/ (withPw /\ phrases[p].pw = e.pw)}
      org == IF src = {} THEN <<"foreign", e.ws, IF withPw THEN e.pw ELSE EmptyPw>>
             ELSE IF mine # {} THEN phrases[CHOOSE p \in mine : TRUE].org
             ELSE <<"wrong", e.ws, IF withPw THEN e.pw ELSE EmptyPw>>
      soff == IF src = {} THEN f.offset ELSE phrases[CHOOSE p \in src : TRUE].off
  IN /\ Must("C04", ~wf => ~e.r.ok /\ e.r.err \in Defects(e.ws) /\ e.r.none)
     /\ Must("C04", wf /\ ~isEnc /\ ~TTLBad(o) => e.r.ok)
     /\ Must("C05", isEnc => /\ ~g.ok => ~e.r.ok /\ (e.r.err = "decrypt" \/ (TTLBad(o) /\ e.r.err # "panic")) /\ e.r.none
                             /\ g.ok /\ ~TTLBad(o) => e.r.ok)
     /\ Must("C10", TTLBad(o) => ~e.r.ok)
     /\ \A p \in mine : Must("C06", ~TTLBad(o) => e.r.ok)
     /\ NoPanic("C04", e) /\ NoPanic("C05", e) /\ NoPanic("C10", e)
     /\ Intact(e)
     /\ e.r.ok /\ wf /\ g.ok =>
           /\ KeyObserved(e, g.seed, f.offset)
           /\ keys' = Put(keys, e.k, [bits |-> g.seed, off |-> f.offset, org |-> org, soff |-> soff,
                                      opts |-> o, obs |-> e.r.obs])
     /\ ~(e.r.ok /\ wf /\ g.ok) => keys' = keys
     /\ UNCHANGED <<seeds, phrases, decs, exports>>

-----------------------------------------------------------------------------
(* Exports.  e.r.val = [raw, con] : raw is what was written, con its content:*)
(*  con.wf      it could be read as a key at all                             *)
(*  con.master  [stub, locked, secret, fp, created]                          *)
(*  con.uid, con.cert (number of self-certifications), con.certPeriods       *)
(*  con.subs    sequence of [type, locked, secret, fp, created, period]      *)
(*  con.nonces  the salts and IVs used                                       *)
(*  con.leaks   does it contain this secret anywhere?  (set of labels)       *)
ExportOk(e) ==
  LET key == keys[e.k]
      o == key.opts
      q == e.req
      c == e.r.val.con
      x == key.obs
      secret(l) == Secret(key.bits, key.off, l)
      period == IF TTLClass(o.ttl) = "none" THEN NoExpiry ELSE Period(o.ttl)
  IN /\ \A p \in {"C07", "C09", "C10", "C12", "C13", "C14"} : Must(p, c.wf)
     /\ c.wf =>
        /\ Must("C14", /\ {c.subs[i].type : i \in 1..Len(c.subs)} = Selected(o)
                       /\ Len(c.subs) = Cardinality(Selected(o))
                       /\ c.uid = UserId(o.name, o.email) /\ c.uid = x.uid
                       /\ c.master.stub = (q.mode = "sub")
                       /\ c.cert = (IF q.mode = "sub" /\ ~q.cert THEN 0 ELSE 1)
                       /\ c.master.fp = x.fp
                       /\ \A i \in 1..Len(c.subs) : c.subs[i].fp = x.fps[c.subs[i].type]
                       /\ c.armorOk)
        /\ Must("C09", /\ c.master.created = Instant(key.off)
                       /\ \A i \in 1..Len(c.subs) : c.subs[i].created = Instant(key.off)
                       /\ \A i \in 1..Len(c.sigTimes) : c.sigTimes[i] = Instant(key.off))
        /\ Must("C10", /\ \A i \in 1..Len(c.certPeriods) : c.certPeriods[i] = period
                       /\ \A i \in 1..Len(c.subs) : c.subs[i].period = period)
        /\ Must("C07", /\ q.mode = "full" => c.master.secret = secret(Master)
                       /\ \A i \in 1..Len(c.subs) : c.subs[i].secret = secret(Label(o, c.subs[i].type)))
        \* asked for again, it is the same (e.twin: the unprotected export asked for once more)
        /\ Must("C15", q.pw = EmptyPw /\ e.twin # "" => e.r.val.raw = e.twin)
        /\ Must("C12", q.mode = "sub" => /\ c.master.stub
                                         /\ c.leaks = {}
                                         /\ {c.subs[i].type : i \in 1..Len(c.subs)} = Selected(o)
                                         /\ \A i \in 1..Len(c.subs) : c.subs[i].secret # "")
        /\ Must("C13", q.pw # EmptyPw =>
              /\ ~c.master.stub => c.master.locked
              /\ \A i \in 1..Len(c.subs) : c.subs[i].locked
              /\ c.leaks = {}
              /\ Len(c.nonces) = 2 * (Len(c.subs) + (IF c.master.stub THEN 0 ELSE 1))
              /\ \A i, j \in 1..Len(c.nonces) : c.nonces[i] = c.nonces[j] => i = j
              /\ \A y \in exports : \A i \in 1..Len(c.nonces), j \in 1..Len(y.nonces) : c.nonces[i] # y.nonces[j]
              \* unlocked, it is the unprotected export (c.clear: the export with its secrets unlocked)
              /\ c.clear = e.twin)

(* The salts and IVs of many protected exports by several processes, as byte strings:  *)
(* all different, and none of their bits or bytes stuck.                               *)
NonceSweep(e) ==
  LET fresh(S) == /\ Cardinality({S[i] : i \in 1..Len(S)}) = Len(S)
                  /\ \A b \in 1..Len(S[1]) : Cardinality({S[i][b] : i \in 1..Len(S)}) > 8
                  /\ \A b \in 1..Len(S[1]), k \in 0..7 : {(S[i][b] \div Pow2(k)) % 2 : i \in 1..Len(S)} = {0, 1}
  IN /\ Must("C13", /\ e.wf /\ Len(e.salts) >= 40 /\ Len(e.salts) = Len(e.ivs)
                    /\ fresh(e.salts) /\ fresh(e.ivs)
                    \* an IV is not made from its salt, nor from half of itself
                    /\ \A i \in 1..Len(e.ivs) :
                          LET n == Len(e.salts[i])
                              v == e.ivs[i]
                          IN /\ \A j \in 0..(Len(v) - n) : SubSeq(v, j + 1, j + n) # e.salts[i]
                             /\ SubSeq(v, 1, n) # SubSeq(v, n + 1, 2 * n))
     /\ UNCHANGED vars

Export(e) ==
  /\ Must("C06", e.r.ok) /\ Must("C11", e.r.ok) /\ Must("C12", e.r.ok) /\ Must("C13", e.r.ok)
  /\ Must("C14", e.r.ok) /\ Must("C15", e.r.ok)
  /\ Intact(e)
  /\ e.r.ok => /\ ExportOk(e)
               /\ exports' = exports \cup {[k |-> e.k, req |-> e.req,
                                            val |-> IF e.req.pw = EmptyPw THEN e.r.val.raw ELSE "",
                                            nonces |-> e.r.val.con.nonces]}
  /\ ~e.r.ok => exports' = exports
  /\ UNCHANGED <<seeds, phrases, decs, keys>>

(* C15: the same request always gives the same bytes. *)
Reproducible ==
  \A x, y \in exports : (x.req = y.req /\ x.req.pw = EmptyPw
      /\ keys[x.k].bits = keys[y.k].bits /\ keys[x.k].off = keys[y.k].off
      /\ SameOpts(keys[x.k].opts, keys[y.k].opts)) => x.val = y.val

-----------------------------------------------------------------------------
(* Looking again.  Whatever the caller did to its own values in between      *)
(* (op = "scribble"), what it holds is what it held.                         *)
Look(e) ==
  /\ Must("C16", CASE e.kind = "seed" -> e.r.seed = seeds[e.h].bits /\ e.r.same /\ e.r.era = seeds[e.h].era
                   [] e.kind = "key"  -> e.r.obs = keys[e.h].obs
                   [] e.kind = "dec"  -> /\ e.r.off = decs[e.h].off /\ e.r.created = decs[e.h].created
                                         /\ e.r.encrypted = decs[e.h].encrypted
                                         /\ YieldOf(e.r) = decs[e.h].yield
                   [] OTHER -> TRUE)
  /\ UNCHANGED vars

Scribble(e) == UNCHANGED vars

-----------------------------------------------------------------------------
Step(e) ==
  CASE e.op = "newseed"  -> NewSeed(e)
    [] e.op = "genseed"  -> GenerateSeed(e)
    [] e.op = "encplain" -> EncodePlain(e)
    [] e.op = "encenc"   -> EncodeEncrypted(e)
    [] e.op = "saltsweep" -> SaltSweep(e)
    [] e.op = "indexsweep" -> IndexSweep(e)
    [] e.op = "decode"   -> Decode(e)
    [] e.op = "wordsweep" -> WordSweep(e)
    [] e.op = "parsever" -> ParseVersion(e)
    [] e.op = "version"  -> VersionInfo(e)
    [] e.op = "seedof"   -> SeedOf(e)
    [] e.op = "decrypt"  -> Decrypt(e)
    [] e.op = "newkey"   -> NewKey(e)
    [] e.op = "recplain" -> Recover(e)
    [] e.op = "recenc"   -> Recover(e)
    [] e.op = "export"   -> Export(e)
    [] e.op = "noncesweep" -> NonceSweep(e)
    [] e.op = "look"     -> Look(e)
    [] e.op = "scribble" -> Scribble(e)

-----------------------------------------------------------------------------
(* The relational properties, over whole histories.                          *)
(* C01/C02, restated over the state: whatever came back for a phrase of ours *)
(* is what went in.                                                          *)
RoundTrip ==
  \A h \in DOMAIN seeds :
     \A p \in DOMAIN phrases : seeds[h].org = phrases[p].org => seeds[h].bits = phrases[p].bits
OffsetsSurvive ==
  \A d \in DOMAIN decs : \A p \in decs[d].src : Low(decs[d].off) = phrases[p].off
OriginsKeepBits ==
  \A h, g \in DOMAIN seeds : seeds[h].org = seeds[g].org => seeds[h].bits = seeds[g].bits

Inv == /\ Must("C01", RoundTrip /\ OffsetsSurvive /\ OriginsKeepBits)
       /\ Must("C02", RoundTrip /\ OffsetsSurvive /\ OriginsKeepBits)
       /\ Must("C06", RecoveredKeysAgree)
       /\ Must("C08", Independence)
       /\ Must("C15", Reproducible)
=============================================================================
