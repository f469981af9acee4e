------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Did the real command do what the machine of module Cli does?             *)
(*                                                                          *)
(* Every line of the trace file is a history of runs in one directory.  For  *)
(* each run the machine is given the same command line, the same files, the  *)
(* same typed items and what was drawn at random (learnt from the phrase     *)
(* that was shown or saved); its exit, standard output, files and prompts    *)
(* are then compared with those observed.                                    *)
(***************************************************************************)
EXTENDS Cli, CliArgs, OpenPGP, Json, IOUtils

CONSTANT Enforced

VARIABLES t, l, fs, drawn
vars == <<t, l, fs, drawn>>

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
WordList == JsonDeserialize(IOEnv.VERIF_WORDLIST)
Facts == IF "VERIF_FACTS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.VERIF_FACTS) ELSE [x \in {} |-> x]
PropUnderCheck == {IOEnv.VERIF_PROP}
Must(ps, cond) == (ps \cap Enforced # {} => cond) = TRUE
NoFn == [x \in {} |-> x]

(* -------------------------------------------------------- real parameters *)
Idx(s) == IndexIn(WordList, LowerCase(s))
rCompletion(buf) == IF buf = <<>> THEN -1 ELSE FirstWithPrefix(WordList, buf)
rLetters(i) == StringBytes(WordList[i + 1])
rCalls(i) == IF VersionOf(i) \in Supported THEN WordCount(VersionOf(i)) ELSE 0
rFileWords(hex) == LET ps == Pieces(hex) IN [i \in 1..Len(ps) |-> Idx(ps[i])]
rLineWord(hex) == Idx(Text(Trimmed(hex)))
rFeedLines(hex) == LET ls == Lines(Hex(hex)) IN IF hex = "" THEN <<>> ELSE [i \in 1..Len(ls) |-> ToHex(ls[i])]
rKeyBytes(it) == Hex(it.hex) \o (IF it.t = "line" THEN <<13>> ELSE <<>>)
rSeedOf(hex) == LET b == Hex(hex) IN IF Len(b) < 16 THEN <<>> ELSE BytesToBits(SubSeq(b, 1, 16))
rParent(path) == LET ps == SelectSeq(Traces[t].dirs, LAMBDA d : d.path = path) IN IF ps = <<>> THEN "" ELSE ps[1].dir
WordBytes(ws) == Concat([i \in 1..Len(ws) |-> rLetters(ws[i]) \o (IF i = Len(ws) THEN <<10>> ELSE <<32>>)])
rSaved(ws) == ToHex(WordBytes(ws))
rPartOf(hex) == "00"
rTarget(hex) == Text(hex)

(* ----------------------------------------------------- the command line *)
Names == [encryption |-> "656e6372797074696f6e", authentication |-> "61757468656e7469636174696f6e",
          signing |-> "7369676e696e67", master |-> "6d6173746572"]
Subkeys == {"encryption", "authentication", "signing"}
(* what the arguments of a run amount to *)
Understood(e) ==
  LET x == CommandLine([i \in 1..Len(e.argv) |-> Hex(e.argv[i])])
      v(name) == Value0(x.o, name)
      h(name) == ToHex(v(name))
      p(name) == Text(h(name))
  IN [cmd |-> IF x.cmd = "" THEN "generate" ELSE x.cmd, about |-> x.cmd, bad |-> x.kind = "bad", help |-> x.kind = "help",
      opts |-> [name |-> h("name"), email |-> h("email"), ttl |-> h("ttl"), only |-> h("only"),
                enc |-> h("enc-index"), auth |-> h("auth-index"), sig |-> h("sig-index"), selfcert |-> v("self-cert"),
                lockkeys |-> v("encrypt-keys"), lockphrase |-> v("encrypt-phrase"), simple |-> v("simple"), verbose |-> v("verbose"),
                in |-> p("in-word-file"), out |-> p("out-word-file"), entropy |-> p("unsafe-entropy")]] @@ e
Config(e) ==
  LET o == e.opts
      ttl == TTL(Hex(o.ttl))
      pieces == Commas(Hex(o.only))
      names == {ToHex(pieces[i]) : i \in 1..Len(pieces)}
      all == o.only = ""
      ix == [encryption |-> Index(Hex(o.enc)), authentication |-> Index(Hex(o.auth)), signing |-> Index(Hex(o.sig))]
      keyCmd == e.cmd \in {"generate", "recover"}
      n == Trimmed(o.name)
      m == Trimmed(o.email)
      valid == /\ ~e.bad
               /\ keyCmd => /\ o.ttl = "" \/ ttl.ok
                            /\ all \/ names \subseteq {Names[x] : x \in DOMAIN Names}
               /\ e.cmd = "recover" => \A x \in Subkeys : ix[x].ok
  IN [cmd |-> e.cmd, help |-> e.help, valid |-> valid, lockkeys |-> o.lockkeys, lockphrase |-> o.lockphrase,
      in |-> o.in, out |-> o.out, entropy |-> o.entropy, tty |-> e.stdin = "tty", simple |-> o.simple,
      feed |-> e.feed, verbose |-> o.verbose, stdout |-> e.stdout, disk |-> IF e.fault = "disk" THEN "full" ELSE "ok", source |-> IF e.fault = "source" THEN "unreadable" ELSE "ok",
      line |-> IF e.fault = "terminal" THEN "dead" ELSE "ok",
      key |-> [uid |-> IF m = "" THEN n ELSE IF n = "" THEN m ELSE n \o "203c" \o m \o "3e",
               period |-> IF o.ttl = "" \/ ~ttl.ok THEN "" ELSE ToHex(ttl.period),
               types |-> {x \in Subkeys : all \/ Names[x] \in names},
               master |-> all \/ Names["master"] \in names,
               cert |-> o.selfcert,
               ix |-> [x \in Subkeys |-> IF e.cmd = "recover" THEN ix[x].index ELSE 0]]]

(* --------------------------------------------------------------- the run *)
(* Types the items one by one; seen records, per item, the phase that met it. *)
FeedOne(s, e, i) ==
  LET it == e.typed[i]
      gone == i <= Len(e.r.modes) /\ e.r.modes[i] = "gone"
      n == Settle([p |-> Type(s.p, it), fs |-> s.fs])
  IN IF it.t = "touch"
     THEN [p |-> s.p, fs |-> IF gone THEN s.fs ELSE With(s.fs, it.path, File(it.hex, TRUE)), seen |-> Append(s.seen, "touch")]
     ELSE [p |-> n.p, fs |-> n.fs, seen |-> Append(s.seen, s.p.phase)]
Feed(s, e) == FoldLeft(LAMBDA x, i : FeedOne(x, e, i), [p |-> s.p, fs |-> s.fs, seen |-> <<>>],
                       IF e.stdin = "tty" THEN [i \in 1..Len(e.typed) |-> i] ELSE <<>>)

Run(e, fresh) ==
  LET fs0 == IF e.racer = "won" THEN With(fs, e.opts.out, File(e.racerhex, TRUE)) ELSE fs
  IN Feed(Settle([p |-> Begin(Config(e), fresh), fs |-> fs0]), e) @@ [fs0 |-> fs0]

(* The phrase the user got: from the word file if one was asked for, else from the terminal. *)
FsOf(files) == [path \in {files[i].path : i \in 1..Len(files)} |->
                  LET f == files[CHOOSE i \in 1..Len(files) : files[i].path = path]
                  IN [kind |-> f.kind, hex |-> f.hex, open |-> f.open]]
GotWords(e) ==
  IF e.opts.out # ""
  THEN LET f == FileAt(FsOf(e.r.files), e.opts.out) IN IF f.kind = "file" THEN FileWords(f.hex) ELSE <<>>
  ELSE [i \in 1..Len(e.r.words) |-> Idx(e.r.words[i])]

NoFresh == [bits |-> Zeros(SeedBits), off |-> Zeros(OffsetBits), salt |-> Zeros(SaltBits)]
(* What was drawn at random, as far as the phrase tells; p: the run with nothing known. *)
Learn(e, p) ==
  LET ws == GotWords(e)
      f == Fields(ws)
      g == Guess(f, p.ppw)
  IN IF p.phase \notin {"done", "stuck"} /\ p.saved = FALSE THEN NoFresh
     ELSE IF ws = <<>> THEN NoFresh
     ELSE IF ~WellFormed(ws) THEN NoFresh
     ELSE IF f.version # (IF p.c.lockphrase THEN Encrypted ELSE Plain) THEN NoFresh
     ELSE IF f.version = Plain THEN [bits |-> f.body, off |-> f.offset, salt |-> Zeros(SaltBits)]
     ELSE IF ~g.ok THEN NoFresh
     ELSE [bits |-> g.seed, off |-> f.offset, salt |-> f.salt]

(* ------------------------------------------------------------- conditions *)
TrimNewlines(b) == LET k == {i \in 1..Len(b) : b[i] # 10}
                   IN IF k = {} THEN <<>> ELSE SubSeq(b, 1, CHOOSE i \in k : \A j \in k : j <= i)
Label(x, i) == IF x = "master" THEN <<"master">> ELSE <<x, i>>
BuiltKey(key, order) ==
  BuildExport(key.bits, key.off, [x \in Subkeys |-> Label(x, key.sel.ix[x])], Hex(key.sel.uid), key.sel.period,
              IF key.sel.master THEN "full" ELSE "sub", key.sel.cert, order)
Prints(out, key) ==
  LET a == ReadArmor(TrimNewlines(Hex(out)))
      x == ReadExport(a.data)
      order == [i \in 1..Len(x.subs) |-> SubType(x.subs[i])]
      locked == /\ \A i \in 1..Len(x.subs) : x.subs[i].sec.form = "locked"
                /\ x.msec.form = (IF key.sel.master THEN "locked" ELSE "stub")
  IN IF ~a.ok THEN FALSE
     ELSE IF ~x.ok THEN FALSE
     ELSE IF {order[i] : i \in 1..Len(order)} # key.sel.types \/ Len(order) # Cardinality(key.sel.types) THEN FALSE
     ELSE IF key.pw = "" THEN a.data = BuiltKey(key, order)
     ELSE locked /\ Unlocked(x, Hex(key.pw)) = BuiltKey(key, order)
OneBlock(out) == ReadArmor(TrimNewlines(Hex(out))).ok

Between(lo, off, hi) == LET n == BitsToNat(off) IN lo <= n /\ n <= hi

OthersUntouched(e, s, after) ==
  \A path \in (DOMAIN s.fs \cup DOMAIN after) \ {e.opts.out} : FileAt(after, path) = FileAt(s.fs, path)

All == {"C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C28", "C29"}

(* ------------------------------------------------------- what the user sees *)
(* e.r.text is all that appeared on the terminal and on standard error.       *)
Members(q) == {q[i] : i \in 1..Len(q)}
Few(ws) == Cardinality(ws) < 5
Known(p) == p.bits # <<>> /\ (p.c.cmd # "generate" \/ p.c.entropy # "" \/ p.saved \/ p.shown)
Secrets(p) ==
  {BitsToBytes(p.bits), RootKey(p.bits, p.off), SecretBytes(p.bits, p.off, <<"master">>)}
    \cup {SecretBytes(p.bits, p.off, Label(x, p.c.key.ix[x])) : x \in Subkeys}
Discreet(e, s) ==
  LET p == s.p
      c == p.c
      r == e.r
      visible == Members(r.listed)
      byHand == c.cmd # "generate" /\ c.in = "" /\ c.tty
  IN /\ ~MayShow(c) /\ ~byHand => r.words = <<>>
     /\ ~MayShow(c) /\ p.saved => Few((Members(p.phrase) \ (IF byHand THEN Members(p.words) ELSE {})) \cap visible)
     /\ ~byHand /\ c.cmd # "generate" => Few((Members(p.words) \ (IF MayShow(c) THEN Members(p.phrase) ELSE {})) \cap visible)
     /\ \A i \in 1..Len(s.seen) : s.seen[i] \in Prompts /\ e.typed[i].t = "line" /\ Len(Hex(e.typed[i].hex)) >= 8 /\ ~TextHolds(c.key.uid, e.typed[i].hex) => ~TextHolds(r.text, e.typed[i].hex)
     /\ Known(p) => \A x \in Secrets(p) : ~Reveals(r.text, x)
     /\ ~TextHolds(r.text, ToHex(StringBytes("-----BEGIN PGP"))) /\ ~r.outleak

FingerprintAt(p, label) == ToHex(FingerprintOf(KeyPublic(label, SecretBytes(p.bits, p.off, label), Unix4(p.off))))
AsciiText(b) == \A i \in 1..Len(b) : b[i] \in (32..126) \ {34, 92}
Truthful(e, p) ==
  LET r == e.r
      sel == p.c.key
      fps == {[label |-> "master", fp |-> FingerprintAt(p, <<"master">>)]}
               \cup {[label |-> x, fp |-> FingerprintAt(p, Label(x, sel.ix[x]))] : x \in sel.types}
      made == Unix(p.off)
      times == {ToHex(made)} \cup (IF sel.period = "" THEN {} ELSE {ToHex(AddBytes(made, <<0, 0, 0, 0>> \o Hex(sel.period)))})
      prints == Members(r.prints)
  IN IF "key" \notin p.told \/ ~p.printed
     THEN /\ "key" \notin p.told => prints = {}
          /\ "key" \notin p.told /\ "phrase" \notin p.told => r.times = <<>>
     ELSE /\ prints = {x.fp : x \in fps}
          /\ Members(r.labelled) \subseteq fps
          /\ Members(r.times) = times
          /\ AsciiText(Hex(sel.uid)) => TextHolds(r.text, sel.uid)
DecodedAsTold(e, p) ==
  LET f == Fields(p.words)
      x == e.r.facts
  IN "phrase" \in p.told => /\ (x.version # "" => x.version = ToString(f.version))
                             /\ (x.encrypted # "" => x.encrypted = (IF f.version = Encrypted THEN "true" ELSE "false"))

(* what a run under the tracer did: [what, path] with what in {"exec", "net", "write"}; writing is confined to the directory of the word file *)
Confined(x) == x.what = "write" /\ x.near

RunOk(e, s, got) ==
  LET p == s.p
      r == e.r
      after == FsOf(r.files)
      made == p.phrase # <<>> /\ (p.saved \/ p.shown)
      before == IF p.created THEN Absent ELSE FileAt(s.fs, e.opts.out)
      okfile(f) == f.kind = "file" /\ f.hex = Saved(p.phrase) /\ ~f.open
  IN /\ Must(All, r.exit = Exit(p))
     \* the key
     /\ Must({"C18", "C19", "C20", "C24", "C25"}, p.printed => Prints(r.out, KeyOf(p)))
     \* the phrase
     /\ Must({"C20", "C21", "C24", "C28"}, made => got = p.phrase)
     /\ Must({"C20"}, made /\ p.c.cmd = "generate" =>
               /\ Between(r.lo, p.off, r.hi)
               /\ p.c.entropy = "" => p.bits \notin {d.bits : d \in drawn})
     /\ Must({"C20", "C21"}, made /\ p.c.lockphrase => Cardinality({d \in drawn : d.salt = p.fresh.salt}) < 2)
     \* the files
     /\ Must({"C21", "C22", "C28"}, OthersUntouched(e, s, after))
     /\ Must({"C20", "C21", "C22", "C28"}, p.saved => okfile(FileAt(after, e.opts.out)))
     /\ Must({"C21", "C22"}, before.kind # "none" /\ ~p.saved => FileAt(after, e.opts.out) = before)
     /\ Must({"C22"}, p.created => ~FileAt(after, e.opts.out).open)
     \* standard output
     /\ Must({"C19", "C20", "C21", "C22", "C23", "C25", "C29"}, ~p.printed => r.out = "")
     /\ Must({"C23"}, p.printed => OneBlock(r.out))
     \* what is shown
     /\ Must({"C28"}, Discreet(e, s))
     /\ Must({"C28"}, Truthful(e, p) /\ DecodedAsTold(e, p))
     /\ Must({"C28"}, \A i \in 1..Len(r.calls) : Confined(r.calls[i]))
     \* the prompts
     /\ Must({"C24"}, \A i \in 1..Len(s.seen) : s.seen[i] \in Prompts =>
               /\ i <= Len(r.modes) => r.modes[i] \in {"secret", "gone"}
               /\ i <= Len(r.echo) /\ e.typed[i].t = "line" => Hex(r.echo[i]) \in Seq({10, 13}))
     /\ Must({"C18", "C24"}, r.exit \in {"ok", "fail"} => r.restored)
     /\ Must({"C25"}, ~p.c.valid => /\ \A i \in 1..Len(r.modes) : r.modes[i] = "gone"
                                    /\ FileAt(after, e.opts.out) = before)
     \* whoever fails says so
     /\ Must({"C23", "C25"}, r.exit = "fail" /\ ~r.signalled => r.said)
     \* the usage
     /\ Must({"C29"}, p.c.help => /\ \A i \in 1..Len(r.modes) : r.modes[i] = "gone"
                                  /\ after = s.fs
                                  /\ IF e.about = "" THEN \A x \in Commands : TextHolds(r.text, ToHex(B(x)))
                                     ELSE OptionsOf(e.about) \subseteq Members(r.offered))

(* A run that was killed: what it left must be something an earlier point of the full run could leave. *)
CrashOk(e, s) ==
  LET p == s.p
      after == FsOf(e.r.files)
      before == FileAt(s.fs0, e.opts.out)
      f == FileAt(after, e.opts.out)
  IN /\ Must({"C21", "C22"}, OthersUntouched(e, s, after))
     /\ Must({"C21", "C22"}, before.kind # "none" => f = before)
     /\ Must({"C22"}, e.r.out # "" /\ e.opts.out # "" => p.saved /\ f.kind = "file" /\ f.hex = Saved(p.phrase) /\ ~f.open)
     /\ Must({"C22"}, f.kind = "file" /\ before.kind = "none" => ~f.open)

Put(e) == fs' = FsOf(e.files) /\ drawn' = drawn
Ran(e) ==
  LET s0 == Run(e, NoFresh)
      got == GotWords(e)
      fresh == Learn(e, s0.p)
      s == Run(e, fresh)
  IN /\ (IF e.crash THEN CrashOk(e, s) ELSE RunOk(e, s, got)) = TRUE
     /\ fs' = FsOf(e.r.files)
     /\ drawn' = drawn \cup (IF s.p.phrase # <<>> /\ s.p.c.cmd # "recover"
                             THEN {[n |-> l, bits |-> IF s.p.c.cmd = "generate" /\ s.p.c.entropy = "" THEN s.p.bits ELSE <<>>,
                                    salt |-> IF s.p.c.lockphrase THEN s.p.fresh.salt ELSE <<>>]} ELSE {})

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ fs = NoFn /\ drawn = {}
Consume == /\ l <= Len(Traces[t].ev)
           /\ LET e == Traces[t].ev[l] IN (IF e.op = "put" THEN Put(e) ELSE Ran(Understood(e)))
           /\ l' = l + 1 /\ t' = t
Finished == l > Len(Traces[t].ev) /\ UNCHANGED vars
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars

Where == [trace |-> Traces[t].id, index |-> t, event |-> l,
          op |-> IF l <= Len(Traces[t].ev) THEN Traces[t].ev[l].op ELSE "end"]
=============================================================================
