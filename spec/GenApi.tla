------------------------------- MODULE GenApi -------------------------------
(***************************************************************************)
(* Random behaviours of the strict machine (everything enforced, toy sizes), *)
(* written out as operation scripts for the replay harness.  The script      *)
(* names objects by the machine's handles and values symbolically; the       *)
(* harness chooses concrete values (the same one for the same symbol).       *)
(***************************************************************************)
EXTENDS MCMnemonikey, Json, IOUtils, Randomization

VARIABLES hist

Focus == JsonDeserialize(IOEnv.VERIF_FOCUS)      \* sequence of operation names, repetition = weight
Depth == Len(IOEnv.VERIF_DEPTH)                  \* given in unary

(* A step draws one vector z of random numbers (as an explicit tuple, so that TLC draws it once) and *)
(* every choice of the step is a function of it.                                                     *)
Pick(x, S) == SetToSeq(S)[1 + (x % Cardinality(S))]
Have(f) == DOMAIN f # {}

(* words to offer, and the edit that makes them from a phrase *)
Edits == {"none", "case", "append", "drop", "foreign", "subst", "empty", "version", "swap"}
Edited(ws, ed) ==
  CASE ed \in {"none", "case"} -> ws
    [] ed = "append" -> Append(ws, 0)
    [] ed = "drop" -> SubSeq(ws, 1, Len(ws) - 1)
    [] ed = "foreign" -> [ws EXCEPT ![Len(ws)] = Unknown]
    [] ed = "subst" -> [ws EXCEPT ![2] = (ws[2] + 3) % 8]
    [] ed = "empty" -> <<>>
    [] ed = "version" -> [ws EXCEPT ![1] = 6]
    [] ed = "swap" -> [ws EXCEPT ![1] = ws[2], ![2] = ws[1]]

RightSeed(bits) == SeedRes(bits)
RightDecode(ws) ==
  LET f == Fields(ws) IN
  IF WellFormed(ws) THEN [ok |-> TRUE, intact |-> TRUE, version |-> f.version, encrypted |-> f.version = 1,
                          off |-> <<0>> \o f.offset, created |-> tInstant(f.offset)]
  ELSE Err(CHOOSE x \in Defects(ws) : TRUE)
RightKey(bits, off, o) == IF TTLBad(o) THEN Err("ttl") ELSE [ok |-> TRUE, intact |-> TRUE, obs |-> Observed(bits, off, o)]

GenOpts == SomeOpts

(* One random call of the given kind, with its right result; {} when none is possible. *)
Call(op, z) ==
  CASE op = "newseed" ->
         LET v == Pick(z[1], SeedVals)
             q == Pick(z[2], {"ok", "ok", "ok2", "ok3", "neg", "wide", "era"})
         IN {[op |-> op, h |-> Name("s", seeds), sym |-> BitsToNat(v), kind |-> q,
              neg |-> q = "neg", val |-> IF q = "wide" THEN <<1, 0, 0>> ELSE SubSeq(v, Len(v) + 1 - BitLen(v), Len(v)),
              era |-> IF q = "era" THEN 1 ELSE 0,
              r |-> IF q \in {"neg", "wide", "era"} THEN Err("other") ELSE SeedRes(v)]}
    [] op = "genseed" ->
         LET v == Pick(z[1], SeedVals)
             q == Pick(z[2], {"ok", "ok2", "chunk", "short", "fail"})
         IN {[op |-> op, h |-> Name("s", seeds), sym |-> BitsToNat(v), kind |-> q,
              src |-> IF q \in {"short", "fail"} THEN <<1>> ELSE v,
              r |-> IF q \in {"short", "fail"} THEN Err("other") ELSE SeedRes(v)]}
    [] op = "encplain" ->
         IF ~Have(seeds) THEN {} ELSE
         LET via == IF Have(keys) THEN Pick(z[1], {"seed", "key"}) ELSE "seed"
             h == Pick(z[2], IF via = "key" THEN DOMAIN keys ELSE DOMAIN seeds)
             off == IF via = "key" THEN Zeros(2) ELSE Pick(z[3], {<<0, 0>>, <<0, 1>>, <<0, 1>>, <<0, 0>>, <<1, 1>>})
             c == [via |-> via, h |-> h, off |-> off]
         IN {[op |-> op, p |-> Name("p", phrases), via |-> via, h |-> h, off |-> off, sym |-> BitsToNat(off),
              r |-> IF ~Fits(EncOffset(c)) THEN Err("other")
                    ELSE [ok |-> TRUE, intact |-> TRUE, ws |-> PlainPhrase(EncSeed(c).bits, Low(EncOffset(c)))]]}
    [] op = "encenc" ->
         IF ~Have(seeds) THEN {} ELSE
         LET via == IF Have(keys) THEN Pick(z[1], {"seed", "key"}) ELSE "seed"
             h == Pick(z[2], IF via = "key" THEN DOMAIN keys ELSE DOMAIN seeds)
             off == IF via = "key" THEN Zeros(2) ELSE Pick(z[3], {<<0, 0>>, <<0, 1>>, <<0, 1>>, <<1, 0>>})
             pw == Pick(z[4], 1..9)
             w == IF pw = 9 THEN EmptyPw ELSE IF pw < 5 THEN "p" ELSE IF pw < 8 THEN "q" ELSE "r"
             src == Pick(z[5], {"a", "b", "c", "chunk", "short"})
             salt == CASE src = "a" -> <<0, 0>> [] src = "b" -> <<0, 1>> [] src = "c" -> <<1, 0>> [] OTHER -> <<1, 1>>
             c == [via |-> via, h |-> h, off |-> off]
         IN {[op |-> op, p |-> Name("p", phrases), via |-> via, h |-> h, off |-> off, sym |-> BitsToNat(off),
              pw |-> w, source |-> src, src |-> IF src = "short" THEN <<1>> ELSE salt,
              r |-> IF ~Fits(EncOffset(c)) \/ w = EmptyPw \/ src = "short" THEN Err("other")
                    ELSE [ok |-> TRUE, intact |-> TRUE,
                          ws |-> EncryptedPhrase(EncSeed(c).bits, Low(EncOffset(c)), w, salt)]]}
    [] op \in {"decode", "decodeany"} ->
         IF ~Have(phrases) THEN {} ELSE
         LET p == Pick(z[1], DOMAIN phrases)
             ed == IF op = "decode" THEN Pick(z[2], {"none", "case"}) ELSE Pick(z[3], Edits)
             ws == Edited(phrases[p].ws, ed)
         IN {[op |-> "decode", d |-> Name("d", decs), from |-> p, edit |-> ed, ws |-> ws, r |-> RightDecode(ws)]}
    [] op = "parsever" ->
         IF ~Have(phrases) THEN {} ELSE
         LET p == Pick(z[1], DOMAIN phrases)
             q == Pick(z[2], {"first", "version", "foreign"})
             w == CASE q = "first" -> phrases[p].ws[1] [] q = "version" -> 6 [] OTHER -> Unknown
             good == w # Unknown /\ VersionOf(w) \in Supported
         IN {[op |-> op, from |-> p, kind |-> q, w |-> w,
              r |-> IF good THEN [ok |-> TRUE, intact |-> TRUE, version |-> VersionOf(w), size |-> WordCount(VersionOf(w)),
                                  encrypted |-> VersionOf(w) = 1]
                    ELSE Err(IF w = Unknown THEN "badword" ELSE "version")]}
    [] op = "seedof" ->
         IF ~Have(decs) THEN {} ELSE
         LET d == Pick(z[1], DOMAIN decs)
             f == Fields(decs[d].ws)
         IN {[op |-> op, d |-> d, h |-> Name("s", seeds),
              r |-> IF f.version = 1 THEN Err("decrypt") ELSE SeedRes(f.body)]}
    [] op = "decrypt" ->
         IF ~Have(decs) THEN {} ELSE
         LET d == Pick(z[1], DOMAIN decs)
             f == Fields(decs[d].ws)
             pws == {phrases[p].pw : p \in decs[d].src}
             w == IF Pick(z[2], 1..3) > 1 /\ pws # {} /\ pws # {EmptyPw} THEN Pick(z[3], pws \ {EmptyPw}) ELSE Pick(z[4], {"p", "q", "r"})
             g == Guess(f, w)
         IN {[op |-> op, d |-> d, h |-> Name("s", seeds), pw |-> w,
              r |-> IF f.version = 0 THEN SeedRes(f.body) ELSE IF g.ok THEN SeedRes(g.seed) ELSE Err("decrypt")]}
    [] op = "newkey" ->
         IF ~Have(seeds) THEN {} ELSE
         LET h == Pick(z[1], DOMAIN seeds)
             o == Pick(z[2], GenOpts)
             d == IF Have(decs) THEN Pick(z[3], DOMAIN decs \cup {""}) ELSE ""
             q == IF d = "" THEN Pick(z[4], {"in", "in1", "in2", "early", "late"}) ELSE "in"
             cls == IF q \in {"in1", "in2"} THEN "in" ELSE q
             off == IF d # "" THEN Low(decs[d].off) ELSE IF cls = "in" THEN Pick(z[5], Offs) ELSE Zeros(OffsetBits)
         IN {[op |-> op, k |-> Name("k", keys), h |-> h, d |-> d, at |-> [cls |-> cls, off |-> off], sym |-> BitsToNat(off),
              opts |-> o, r |-> IF cls # "in" THEN Err(cls) ELSE RightKey(seeds[h].bits, off, o)]}
    [] op = "samekey" ->       \* a key from a decoded phrase, under options used before
         IF ~Have(keys) \/ ~Have(decs) \/ ~Have(seeds) THEN {} ELSE
         LET k == Pick(z[1], DOMAIN keys)
             match == {x \in (DOMAIN seeds) \X (DOMAIN decs) : seeds[x[1]].org = keys[k].org /\ decs[x[2]].soff = keys[k].soff}
         IN IF match = {} THEN {} ELSE
            LET x == Pick(z[2], match)
                off == Low(decs[x[2]].off)
            IN {[op |-> "newkey", k |-> Name("k", keys), h |-> x[1], d |-> x[2],
                 at |-> [cls |-> "in", off |-> off], sym |-> BitsToNat(off),
                 opts |-> keys[k].opts, r |-> RightKey(seeds[x[1]].bits, off, keys[k].opts)]}
    [] op \in {"recover", "recoverany"} ->
         IF ~Have(phrases) THEN {} ELSE
         LET p == Pick(z[1], DOMAIN phrases)
             ed == IF op = "recover" THEN "none" ELSE Pick(z[2], Edits)
             ws == Edited(phrases[p].ws, ed)
             withPw == IF phrases[p].enc THEN Pick(z[3], 1..4) > 1 ELSE Pick(z[4], 1..4) = 1
             w == IF phrases[p].enc /\ Pick(z[5], 1..4) > 1 THEN phrases[p].pw ELSE Pick(z[6], {"p", "q", "r"})
             o == IF Have(keys) /\ Pick(z[7], 1..3) > 1 THEN keys[Pick(z[8], DOMAIN keys)].opts ELSE Pick(z[9], GenOpts)
             wf == WellFormed(ws)
             f == Fields(ws)
             g == IF f.version = 0 THEN [ok |-> TRUE, seed |-> f.body] ELSE IF withPw THEN Guess(f, w) ELSE Err("decrypt")
             res == IF ~wf THEN Err(CHOOSE x \in Defects(ws) : TRUE)
                    ELSE IF ~g.ok THEN Err("decrypt")
                    ELSE RightKey(g.seed, f.offset, o)
         IN IF withPw
            THEN {[op |-> "recenc", k |-> Name("k", keys), from |-> p, edit |-> ed, ws |-> ws, pw |-> w, opts |-> o, r |-> res]}
            ELSE {[op |-> "recplain", k |-> Name("k", keys), from |-> p, edit |-> ed, ws |-> ws, opts |-> o, r |-> res]}
    [] op \in {"export", "exportpw"} ->
         IF ~Have(keys) THEN {} ELSE
         LET k == Pick(z[1], DOMAIN keys)
             q == [mode |-> Pick(z[2], {"full", "sub"}), cert |-> Pick(z[3], BOOLEAN),
                   pw |-> IF op = "exportpw" THEN Pick(z[4], {"p", "q"}) ELSE EmptyPw, armor |-> Pick(z[5], {1, 2, 3}) = 1]
             c == Content(k, q, Cardinality(exports))
         IN {[op |-> "export", k |-> k, req |-> q, twin |-> c.clear,
              r |-> [ok |-> TRUE, intact |-> TRUE, val |-> [raw |-> c.clear, con |-> c]]]}
    [] op = "scribble" ->
         {[op |-> op, what |-> Pick(z[1], {"args", "returned"})]}
    [] op = "look" ->
         LET kinds == {x \in {"seed", "key", "dec"} : Have(CASE x = "seed" -> seeds [] x = "key" -> keys [] x = "dec" -> decs)}
         IN IF kinds = {} THEN {} ELSE
            LET x == Pick(z[1], kinds)
                h == Pick(z[2], DOMAIN (CASE x = "seed" -> seeds [] x = "key" -> keys [] x = "dec" -> decs))
            IN {[op |-> op, kind |-> x, h |-> h,
                 r |-> CASE x = "seed" -> SeedRes(seeds[h].bits)
                         [] x = "key" -> [obs |-> keys[h].obs]
                         [] x = "dec" -> [off |-> decs[h].off, created |-> decs[h].created, encrypted |-> decs[h].encrypted]]}

(* depends on the state, so that TLC throws it anew in every step *)
Die == RandomElement(0..(9999 + 0 * Len(hist)))

GenInit == Init /\ hist = <<>>
GenNext ==
  \E z \in {<<Die, Die, Die, Die, Die, Die, Die, Die, Die, Die>>} :
    \E able \in {SelectSeq(IF Have(seeds) THEN Focus ELSE <<"newseed", "genseed">>, LAMBDA o : Call(o, z) # {})} :
       IF able = <<>> THEN UNCHANGED vars /\ hist' = Append(hist, [op |-> "skip"])
       ELSE \E e \in Call(able[1 + (z[10] % Len(able))], z) :
               Step(e) /\ hist' = Append(hist, [f \in DOMAIN e \ {"r"} |-> e[f]])
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>

Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(SelectSeq(hist, LAMBDA e : e.op # "skip")))
=============================================================================
