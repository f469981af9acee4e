------------------------------ MODULE TraceApi ------------------------------
(***************************************************************************)
(* Do the recorded calls of the real library form behaviours of Mnemonikey? *)
(*                                                                          *)
(* Every line of the trace file is one independent history: a sequence of   *)
(* calls with their results.  All histories are initial states; each step   *)
(* consumes one call.  A call the specification does not allow leaves the    *)
(* machine without a successor (reported by TLC as a deadlock), a history    *)
(* breaking a relational property violates Inv.                              *)
(***************************************************************************)
EXTENDS Mnemonikey, OpenPGP, Codec, Json, IOUtils

VARIABLES t, l

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
WordList == JsonDeserialize(IOEnv.VERIF_WORDLIST)
Facts == IF "VERIF_FACTS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.VERIF_FACTS) ELSE NoFn
PropUnderCheck == {IOEnv.VERIF_PROP}

(* ----------------------------------------- real versions of the parameters *)
rInstant(off) == ToHex(Unix(off))
rTTLClass(x) ==
  LET s == Hex(x.sec)
  IN IF x.neg THEN "negative"
     ELSE IF s = Zeros(8) THEN IF x.ns = 0 THEN "none" ELSE "unrepresentable"
     ELSE IF SubSeq(s, 1, 4) # Zeros(4) THEN "unrepresentable"
     ELSE "ok"
rExpiry(off, x) == ToHex(AddBytes(Unix(off), Hex(x.sec)))
rPeriod(x) == ToHex(SubSeq(Hex(x.sec), 5, 8))
rUserId(n, m) == IF m = "" THEN n ELSE IF n = "" THEN m ELSE n \o "203c" \o m \o "3e"
rCarries(p, s) == \E i \in 0..(Len(p) - SeedBits) : SubSeq(p, i + 1, i + SeedBits) = s

(* -------------------------------------------------------- reading an event *)
Idx(w) == IndexIn(WordList, LowerCase(w))
ExactIdx(w) == IndexIn(WordList, w)
Words(ws) == [i \in 1..Len(ws) |-> Idx(ws[i])]
ExactWords(ws) == [i \in 1..Len(ws) |-> ExactIdx(ws[i])]
HexBits(h) == BytesToBits(Hex(h))

SeedResult(r) ==
  IF ~r.ok THEN r
  ELSE r @@ [seed |-> HexBits(r.bytes), same |-> ~r.ineg /\ StripZeros(Hex(r.bytes)) = Hex(r.int)]
PhraseResult(r) == IF r.ok THEN r @@ [ws |-> ExactWords(r.words)] ELSE r
DecodeResult(r) == IF r.ok THEN [off |-> HexBits(r.off)] @@ r ELSE r

MaxRel == <<0, 0, 0, 0, 127, 255, 255, 255>>
When(a) ==
  LET m == Hex(a.mag)
  IN IF a.neg THEN [cls |-> "early", off |-> Zeros(OffsetBits)]
     ELSE IF LessSeq(MaxRel, m) \/ (m = MaxRel /\ a.ns > 0) THEN [cls |-> "late", off |-> Zeros(OffsetBits)]
     ELSE [cls |-> "in", off |-> SubSeq(BytesToBits(m), 65 - OffsetBits, 64)]

(* what an export contains *)
BadContent == [wf |-> FALSE, nonces |-> <<>>]
Secrets(b) == LET x == ReadExport(b)
              IN IF ~x.ok THEN {}
                 ELSE {x.subs[i].sec.secret : i \in {j \in 1..Len(x.subs) : x.subs[j].sec.form = "clear"}}
                      \cup (IF x.msec.form = "clear" THEN {x.msec.secret} ELSE {})
MasterSecrets(b) == LET x == ReadExport(b)
                    IN IF ~x.ok THEN {} ELSE IF x.msec.form = "clear" THEN {x.msec.secret} ELSE {}
Inside(s, b) == Occurs(StripZeros(s), b) \/ Occurs(Reverse8(StripZeros(s)), b)

NeedUnlock == PropUnderCheck \cap {"C07", "C13"} # {}
NeedLeaks == PropUnderCheck \cap {"C12", "C13"} # {}

Content(e, b) ==
  LET x == ReadExport(b)
      pw == Hex(e.req.pw)
      key == keys[e.k]
      open(s) == IF s.form = "clear" THEN ToHex(s.secret)
                 ELSE IF s.form = "locked" /\ NeedUnlock
                      THEN LET u == Unlock(s, pw) IN IF u.form = "clear" THEN ToHex(u.secret) ELSE ""
                 ELSE IF s.form = "locked" THEN "locked" ELSE ""
      time(c) == "00000000" \o ToHex(c)
      period(sig) == LET p == SubBodies(sig.hashed, 9) IN IF p = <<>> THEN "" ELSE ToHex(p[1])
      sigTime(sig) == LET p == SubBodies(sig.hashed, 2) IN IF p = <<>> THEN "" ELSE time(p[1])
      embTimes(s) == LET q == SubBodies(s.sig.unhashed, 32) \o SubBodies(s.sig.hashed, 32)
                     IN [i \in 1..Len(q) |-> LET g == ReadSig(q[i]) IN IF g.ok THEN sigTime(g) ELSE ""]
      nonce(s) == IF s.form = "locked" THEN <<"s" \o ToHex(s.salt), "i" \o ToHex(s.iv)>> ELSE <<>>
      hidden == (IF e.req.mode = "sub" THEN {SecretBytes(key.bits, key.off, Master), RootKey(key.bits, key.off)}
                                            \cup MasterSecrets(Hex(e.full)) ELSE {})
                \cup (IF e.req.pw # "" THEN Secrets(Hex(e.twin)) \cup Secrets(Hex(e.full)) ELSE {})
  IN IF ~x.ok THEN BadContent
     ELSE [wf |-> TRUE,
           uid |-> ToHex(x.uid),
           cert |-> Len(x.certs),
           certPeriods |-> [i \in 1..Len(x.certs) |-> period(x.certs[i])],
           sigTimes |-> [i \in 1..Len(x.certs) |-> sigTime(x.certs[i])] \o
                        [i \in 1..Len(x.subs) |-> sigTime(x.subs[i].sig)] \o
                        Concat([i \in 1..Len(x.subs) |-> embTimes(x.subs[i])]),
           master |-> [stub |-> x.msec.form = "stub", locked |-> x.msec.form = "locked",
                       secret |-> open(x.msec), fp |-> ToHex(FingerprintOf(x.master.pub)),
                       created |-> time(x.master.created)],
           subs |-> [i \in 1..Len(x.subs) |->
                      [type |-> SubType(x.subs[i]), locked |-> x.subs[i].sec.form = "locked",
                       secret |-> open(x.subs[i].sec), fp |-> ToHex(FingerprintOf(x.subs[i].key.pub)),
                       created |-> time(x.subs[i].key.created), period |-> period(x.subs[i].sig)]],
           nonces |-> nonce(x.msec) \o Concat([i \in 1..Len(x.subs) |-> nonce(x.subs[i].sec)]),
           leaks |-> IF NeedLeaks
                     THEN {s \in hidden : Inside(s, b)} \cup
                          (IF e.req.mode = "sub" /\ Occurs(BitsToBytes(key.bits), b) THEN {BitsToBytes(key.bits)} ELSE {})
                     ELSE {},
           clear |-> IF e.req.pw = "" \/ ~NeedUnlock THEN "" ELSE ToHex(Unlocked(x, pw))]

(* an armored export is judged by what its armor decodes to *)
ExportBytes(e) == IF e.req.armor THEN LET a == ReadArmor(Hex(e.r.text)) IN IF a.ok THEN a.data ELSE <<>>
                  ELSE Hex(e.r.raw)
ArmorOk(e) == e.req.armor => LET a == ReadArmor(Hex(e.r.text))
                             IN a.ok /\ (e.req.pw = "" => ToHex(a.data) = e.twin)

ExportEvent(e) ==
  IF ~e.r.ok THEN e
  ELSE LET b == ExportBytes(e)
           c == Content(e, b)
       IN [e EXCEPT !.r = [ok |-> TRUE, intact |-> e.r.intact,
                           val |-> [raw |-> ToHex(b),
                                    con |-> c @@ [armorOk |-> ArmorOk(e)]]]]

Event(e) ==
  CASE e.op = "newseed"  -> [e EXCEPT !.val = LET b == HexBits(e.val) IN SubSeq(b, Len(b) + 1 - BitLen(b), Len(b)),
                                      !.r = SeedResult(e.r)]
    [] e.op = "genseed"  -> [e EXCEPT !.src = HexBits(e.src), !.r = SeedResult(e.r)]
    [] e.op = "encplain" -> [e EXCEPT !.off = HexBits(e.off), !.r = PhraseResult(e.r)]
    [] e.op = "encenc"   -> [e EXCEPT !.off = HexBits(e.off), !.src = HexBits(e.src), !.r = PhraseResult(e.r)]
    [] e.op = "decode"   -> [e EXCEPT !.ws = Words(e.ws), !.r = DecodeResult(e.r)]
    [] e.op = "parsever" -> [e EXCEPT !.w = Idx(e.w)]
    [] e.op = "seedof"   -> [e EXCEPT !.r = SeedResult(e.r)]
    [] e.op = "decrypt"  -> [e EXCEPT !.r = SeedResult(e.r)]
    [] e.op = "indexsweep" -> [e EXCEPT !.seed = HexBits(e.seed), !.off = Low(HexBits(e.off))]
    [] e.op = "wordsweep" -> [e EXCEPT !.ws = Words(e.ws)]
    [] e.op = "newkey"   -> [e EXCEPT !.at = When(e.at)]
    [] e.op \in {"recplain", "recenc"} -> [e EXCEPT !.ws = Words(e.ws)]
    [] e.op = "export"   -> ExportEvent(e)
    [] e.op = "noncesweep" ->
         LET X == [i \in 1..Len(e.raws) |-> ReadExport(Hex(e.raws[i]))]
             good == \A i \in 1..Len(X) : X[i].ok
             secs(x) == <<x.msec>> \o [j \in 1..Len(x.subs) |-> x.subs[j].sec]
             all == IF good THEN Concat([i \in 1..Len(X) |-> secs(X[i])]) ELSE <<>>
         IN [op |-> "noncesweep",
             wf |-> good /\ (\A i \in 1..Len(all) : all[i].form = "locked"),
             salts |-> [i \in 1..Len(all) |-> IF all[i].form = "locked" THEN all[i].salt ELSE <<>>],
             ivs |-> [i \in 1..Len(all) |-> IF all[i].form = "locked" THEN all[i].iv ELSE <<>>]]
    [] e.op = "look"     -> CASE e.kind = "seed" -> [e EXCEPT !.r = SeedResult(e.r)]
                              [] e.kind = "dec"  -> [e EXCEPT !.r = DecodeResult(e.r)]
                              [] OTHER -> e
    [] OTHER -> e

(* -------------------------------------------------- the codec, call by call *)
CodecOps == {"encidx", "decidx", "encwords", "decwords"}
CodecStep(e) ==
  LET bits(h) == Significant(HexBits(h))
      known(ws) == \A i \in 1..Len(ws) : Idx(ws[i]) # Unknown
  IN /\ CASE e.op = "encidx" ->
              Must("C26", /\ e.r.ok = FitsSize(bits(e.val), e.size)
                          /\ e.r.ok => e.r.idx = ToIndices(bits(e.val), e.size)
                          /\ ~e.r.ok => e.r.err # "panic")
            [] e.op = "decidx" ->
              Must("C26", /\ e.r.ok = GoodIndices(e.idx)
                          /\ e.r.ok => ~e.r.neg /\ bits(e.r.val) = FromIndices(e.idx)
                          /\ ~e.r.ok => e.r.err = "index")
            [] e.op = "encwords" ->
              Must("C26", /\ e.r.ok = GoodIndices(e.idx)
                          /\ e.r.ok => ExactWords(e.r.words) = e.idx
                          /\ ~e.r.ok => e.r.err = "index")
            [] e.op = "decwords" ->
              Must("C26", /\ e.r.ok = known(e.words)
                          /\ e.r.ok => e.r.idx = Words(e.words)
                          /\ ~e.r.ok => e.r.err = "badword")
     /\ Intact(e)
     /\ UNCHANGED vars

(* --------------------------------- conditions that only make sense on bytes *)
Wire(e) ==
  e.op = "export" /\ e.r.ok =>
    LET b == ExportBytes(e)
        key == keys[e.k]
        o == key.opts
    IN /\ Must("C11", WellFormedExport(ReadExport(b)))
       /\ Must("C15", e.req.pw # "" =>
             LET x == ReadExport(b)
             IN x.ok /\ [i \in 1..Len(x.subs) |-> SubType(x.subs[i])] = SelectSeq(e.order, LAMBDA y : y \in Selected(o)))
       /\ Must("C15", e.req.pw = "" =>
             b = BuildExport(key.bits, key.off, [x \in Types |-> Label(o, x)], Hex(rUserId(o.name, o.email)),
                             IF TTLClass(o.ttl) = "none" THEN "" ELSE rPeriod(o.ttl),
                             e.req.mode, e.req.cert, SelectSeq(e.order, LAMBDA x : x \in Selected(o))))

----------------------------------------------------------------------------
TraceInit == Init /\ t \in 1..Len(Traces) /\ l = 1
Consume == /\ l <= Len(Traces[t].ev)
           /\ LET e == Traces[t].ev[l] IN (IF e.op \in CodecOps THEN CodecStep(e) ELSE Step(Event(e)) /\ (Wire(e) = TRUE))
           /\ l' = l + 1 /\ t' = t
Finished == l > Len(Traces[t].ev) /\ UNCHANGED <<vars, t, l>>
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, t, l>>

Where == [trace |-> Traces[t].id, index |-> t, event |-> l,
          op |-> IF l <= Len(Traces[t].ev) THEN Traces[t].ev[l].op ELSE "end"]
=============================================================================
