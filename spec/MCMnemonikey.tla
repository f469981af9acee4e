---------------------------- MODULE MCMnemonikey ----------------------------
(***************************************************************************)
(* Mnemonikey at toy sizes: 2-bit seeds, 1-bit offsets, 2-bit salts, 3-bit  *)
(* words, invertible toy ciphers, colliding verify bits.  TLC picks every   *)
(* call; for each call it is offered right and wrong results, the           *)
(* specification's conditions filter them, and the relational properties    *)
(* are invariants of what remains.                                          *)
(***************************************************************************)
EXTENDS Mnemonikey

CONSTANTS MaxSeeds, MaxPhrases, MaxDecs, MaxKeys, MaxExports,
          Passwords, Ops, KeyOpts

----------------------------------------------------------------------------
tChecksum(p) == <<(FoldLeft(LAMBDA a, i : a + i * p[i], 0, [j \in 1..Len(p) |-> j]) \div 2) % 2>>
PwNum(pw) == CASE pw = "" -> 0 [] pw = "p" -> 1 [] pw = "q" -> 2 [] pw = "r" -> 3
tPwKey(pw, s) == LET n == PwNum(pw) * 5 + BitsToNat(s) * 3
                 IN [key |-> Bits(n % 4, 2), verify |-> <<((n \div 4) + PwNum(pw)) % 2>>]
tEncipher(k, b) == XorBits(k, b)
tDecipher(k, b) == XorBits(k, b)
tSecret(bits, off, label) == ToString(<<bits, off, label>>)
tKeyId(label, secret, off) == "F" \o secret
tInstant(off) == ToString(off)
tTTLClass(t) == CASE t = "0" -> "none" [] t = "-" -> "negative" [] t = "*" -> "unrepresentable" [] OTHER -> "ok"
tExpiry(off, t) == ToString(off) \o "+" \o t
tPeriod(t) == t
tUserId(n, m) == IF m = "" THEN n ELSE IF n = "" THEN m ELSE n \o " <" \o m \o ">"
tCarries(p, s) == FALSE

----------------------------------------------------------------------------
SeedVals == UNION {[1..n -> {0, 1}] : n \in {SeedBits}}
Offs == [1..OffsetBits -> {0, 1}]
Wide == [1..(OffsetBits + 1) -> {0, 1}]
Name(pre, f) == pre \o ToString(Cardinality(DOMAIN f) + 1)
Room(f, n) == Cardinality(DOMAIN f) < n

SomeOpts == [name : {"n"}, email : {"", "m"}, ttl : {"0", "1", "-", "*"}, all : {TRUE}, list : {<<>>},
             enc : {0, 1}, auth : {0}, sig : {0}]
            \cup [name : {"n"}, email : {""}, ttl : {"0"}, all : {FALSE}, list : {<<>>, <<"signing">>, <<"encryption", "bogus">>},
                  enc : {0}, auth : {0}, sig : {0, 1}]
FewOpts == {o \in SomeOpts : o.ttl \in {"0", "*"} /\ o.email = "" /\ o.enc = 0}
TwoOpts == {o \in FewOpts : o.ttl = "0" /\ o.list \in {<<>>, <<"signing">>} /\ o.sig = Len(o.list)}

Err(c) == [ok |-> FALSE, err |-> c, none |-> TRUE, intact |-> TRUE]
SeedRes(b) == [ok |-> TRUE, seed |-> b, same |-> TRUE, era |-> 0, intact |-> TRUE, used |-> SeedBits]

(* the results offered for a call that yields a seed *)
SeedAnswers == {SeedRes(b) : b \in SeedVals} \cup {Err("decrypt"), Err("other")}

Observed(bits, off, o) ==
  [created |-> tInstant(off),
   expiry |-> IF tTTLClass(o.ttl) = "none" THEN NoExpiry ELSE tExpiry(off, o.ttl),
   uid |-> tUserId(o.name, o.email),
   fp |-> tKeyId(Master, tSecret(bits, off, Master), off),
   types |-> SelectSeq(<<"encryption", "authentication", "signing">>, LAMBDA t : t \in Selected(o)),
   strays |-> "",
   fps |-> [t \in Types |-> IF t \in Selected(o)
                            THEN tKeyId(Label(o, t), tSecret(bits, off, Label(o, t)), off) ELSE ""]]
KeyAnswersOf == [o \in SomeOpts |->
  {[ok |-> TRUE, intact |-> TRUE, obs |-> Observed(b, f, o)] : b \in SeedVals, f \in Offs}
  \cup {Err("early"), Err("late"), Err("ttl"), Err("decrypt"), Err("checksum"), Err("wordcount"), Err("version")}]
KeyAnswers(o) == KeyAnswersOf[o]
RecPhrases ==
  {phrases[p].ws : p \in DOMAIN phrases}
  \cup {SubSeq(phrases[p].ws, 1, Len(phrases[p].ws) - 1) : p \in DOMAIN phrases}

Content(k, q, n) ==
  LET key == keys[k]
      o == key.opts
      sec(l) == tSecret(key.bits, key.off, l)
      per == IF tTTLClass(o.ttl) = "none" THEN NoExpiry ELSE tPeriod(o.ttl)
      lk == q.pw # EmptyPw
      sel == SelectSeq(<<"encryption", "authentication", "signing">>, LAMBDA t : t \in Selected(o))
      stub == q.mode = "sub"
      nn == 2 * (Len(sel) + (IF stub THEN 0 ELSE 1))
  IN [wf |-> TRUE, armorOk |-> TRUE, uid |-> tUserId(o.name, o.email),
      cert |-> IF stub /\ ~q.cert THEN 0 ELSE 1,
      certPeriods |-> IF stub /\ ~q.cert THEN <<>> ELSE <<per>>,
      sigTimes |-> <<tInstant(key.off)>>,
      master |-> [stub |-> stub, locked |-> lk /\ ~stub, secret |-> IF stub THEN "" ELSE sec(Master),
                  fp |-> key.obs.fp, created |-> tInstant(key.off)],
      subs |-> [i \in 1..Len(sel) |-> [type |-> sel[i], locked |-> lk, secret |-> sec(Label(o, sel[i])),
                  fp |-> key.obs.fps[sel[i]], created |-> tInstant(key.off), period |-> per]],
      nonces |-> IF lk THEN [i \in 1..nn |-> ToString(<<n, i>>)] ELSE <<>>,
      leaks |-> {},
      clear |-> ToString(<<key.bits, key.off, o, q.mode, q.cert>>)]

(* wrong exports, one per way of going wrong *)
Spoil(c) == {c,
             [c EXCEPT !.uid = "x"], [c EXCEPT !.cert = 1 - c.cert], [c EXCEPT !.leaks = {"master"}],
             [c EXCEPT !.clear = "x"], [c EXCEPT !.master.stub = ~c.master.stub],
             [c EXCEPT !.nonces = [i \in 1..Len(c.nonces) |-> "again"]]}

OfferedPhrases ==
  {phrases[p].ws : p \in DOMAIN phrases}
  \cup {Append(phrases[p].ws, 0) : p \in DOMAIN phrases}
  \cup {SubSeq(phrases[p].ws, 1, Len(phrases[p].ws) - 1) : p \in DOMAIN phrases}
  \cup {[phrases[p].ws EXCEPT ![i] = x] : p \in DOMAIN phrases, i \in 1..2, x \in {Unknown, 0, 3, 5, 6}}
  \cup {<<>>}

Calls ==
  (IF "newseed" \in Ops /\ Room(seeds, 1) THEN
    {[op |-> "newseed", h |-> Name("s", seeds), neg |-> n, val |-> v, era |-> er, r |-> r] :
      n \in BOOLEAN, v \in {SubSeq(b, Len(b) + 1 - BitLen(b), Len(b)) : b \in SeedVals} \cup {<<1, 0, 0>>},
      er \in {0, 1}, r \in SeedAnswers} ELSE {})
  \cup
  (IF "genseed" \in Ops /\ Room(seeds, 1) THEN
    {[op |-> "genseed", h |-> Name("s", seeds), src |-> s, r |-> r] :
      s \in [1..SeedBits -> {0, 1}] \cup {<<>>, <<1>>, <<1, 0, 1>>}, r \in SeedAnswers} ELSE {})
  \cup
  (IF "encplain" \in Ops /\ Room(phrases, MaxPhrases) THEN
    {[op |-> "encplain", p |-> Name("p", phrases), via |-> v, h |-> h, off |-> f,
      r |-> r] : v \in {"seed"}, h \in DOMAIN seeds, f \in Wide,
      r \in {Err("other"), Err("panic")} \cup {[ok |-> TRUE, intact |-> i, ws |-> PlainPhrase(b, g)] :
              i \in {TRUE}, b \in SeedVals, g \in Offs}}
    \cup
    {[op |-> "encplain", p |-> Name("p", phrases), via |-> "key", h |-> h, off |-> Zeros(OffsetBits + 1),
      r |-> r] : h \in DOMAIN keys,
      r \in {Err("other")} \cup {[ok |-> TRUE, intact |-> TRUE, ws |-> PlainPhrase(b, g)] :
              b \in SeedVals, g \in Offs}} ELSE {})
  \cup
  (IF "encenc" \in Ops /\ Room(phrases, MaxPhrases) THEN
    {[op |-> "encenc", p |-> Name("p", phrases), via |-> "seed", h |-> h, off |-> f, pw |-> w, src |-> s, r |-> r] :
      h \in DOMAIN seeds, f \in Wide, w \in Passwords \cup {EmptyPw}, s \in {<<0, 1>>, <<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>},
      r \in {Err("other")} \cup {[ok |-> TRUE, intact |-> TRUE, ws |-> EncryptedPhrase(b, g, w2, x)] :
               b \in SeedVals, g \in Offs, w2 \in Passwords, x \in {<<0, 1>>, <<1, 1>>}}} ELSE {})
  \cup
  (IF "decode" \in Ops /\ Room(decs, MaxDecs) THEN
    UNION {{[op |-> "decode", d |-> Name("d", decs), ws |-> ws, r |-> r] :
      r \in {Err(x) : x \in {"wordcount", "badword", "version", "checksum", "panic"}}
            \cup {[ok |-> TRUE, intact |-> TRUE, version |-> v, encrypted |-> (v = 1), off |-> f,
                   created |-> tInstant(Low(f))] : v \in {0, 1}, f \in {<<0, 0>>, <<0, 1>>}}} :
      ws \in OfferedPhrases} ELSE {})
  \cup
  (IF "seedof" \in Ops /\ Room(seeds, MaxSeeds) THEN
    {[op |-> "seedof", d |-> d, h |-> Name("s", seeds), r |-> r] : d \in DOMAIN decs, r \in SeedAnswers} ELSE {})
  \cup
  (IF "decrypt" \in Ops /\ Room(seeds, MaxSeeds) THEN
    {[op |-> "decrypt", d |-> d, h |-> Name("s", seeds), pw |-> w, r |-> r] :
      d \in DOMAIN decs, w \in Passwords, r \in SeedAnswers} ELSE {})
  \cup
  (IF "newkey" \in Ops /\ Room(keys, MaxKeys) THEN
    UNION {{[op |-> "newkey", k |-> Name("k", keys), h |-> h, at |-> a, d |-> "", opts |-> o, r |-> r] :
      h \in DOMAIN seeds, a \in [cls : {"in"}, off : Offs] \cup [cls : {"early", "late"}, off : {Zeros(OffsetBits)}],
      r \in KeyAnswers(o)} : o \in KeyOpts}
    \cup
    UNION {{[op |-> "newkey", k |-> Name("k", keys), h |-> h, at |-> [cls |-> "in", off |-> Low(decs[d].off)], d |-> d,
       opts |-> o, r |-> r] : h \in DOMAIN seeds, d \in DOMAIN decs, r \in KeyAnswers(o)} : o \in KeyOpts} ELSE {})
  \cup
  (IF "recover" \in Ops /\ Room(keys, MaxKeys) THEN
    UNION {{[op |-> "recplain", k |-> Name("k", keys), ws |-> ws, opts |-> o, r |-> r] :
       ws \in RecPhrases, r \in KeyAnswers(o)} : o \in KeyOpts}
    \cup
    UNION {{[op |-> "recenc", k |-> Name("k", keys), ws |-> ws, pw |-> w, opts |-> o, r |-> r] :
       ws \in RecPhrases, w \in Passwords, r \in KeyAnswers(o)} : o \in KeyOpts} ELSE {})

ExportCalls ==
  IF "export" \in Ops /\ Cardinality(exports) < MaxExports THEN
    UNION {{[op |-> "export", k |-> k, req |-> q, twin |-> ToString(<<keys[k].bits, keys[k].off, keys[k].opts, q.mode, q.cert>>),
       r |-> [ok |-> TRUE, intact |-> TRUE, val |-> [raw |-> c.clear, con |-> c]]] :
         c \in Spoil(Content(k, q, Cardinality(exports)))} :
       k \in DOMAIN keys, q \in [mode : {"full", "sub"}, cert : BOOLEAN, pw : {"p", EmptyPw}]}
  ELSE {}

LookCalls ==
  IF "look" \in Ops THEN
    {[op |-> "look", kind |-> "seed", h |-> h, r |-> SeedRes(b)] : h \in DOMAIN seeds, b \in SeedVals}
    \cup {[op |-> "look", kind |-> "key", h |-> h, r |-> [obs |-> keys[g].obs]] : h, g \in DOMAIN keys}
    \cup {[op |-> "scribble", what |-> "args"]}
  ELSE {}

Next == \E e \in Calls \cup ExportCalls \cup LookCalls : Step(e)
Spec == Init /\ [][Next]_vars

(* Everything enforced, the strict machine satisfies every relational property. *)
AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17"}

(* Derived facts that are not conditions of any single step. *)
WrongPasswordsNeverYieldOriginal ==
  \A h \in DOMAIN seeds : seeds[h].org[1] = "wrong" =>
     \A p \in DOMAIN phrases : phrases[p].ws = seeds[h].org[2] =>
        LET f == Fields(phrases[p].ws)
        IN seeds[h].bits # phrases[p].bits \/ Encipher(PwKey(seeds[h].org[3], f.salt \o f.offset).key, phrases[p].bits) = f.body
WordsDecodeUniquely ==
  \A p, q \in DOMAIN phrases : (phrases[p].ws = phrases[q].ws /\ ~phrases[p].enc) =>
      ~phrases[q].enc /\ phrases[p].bits = phrases[q].bits /\ phrases[p].off = phrases[q].off
=============================================================================
