--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* One run of the mnemonikey command as a machine.                          *)
(*                                                                          *)
(* A run is a record p; fs is the file system it sees.  Begin starts a run, *)
(* Internal makes one internal step (p.phase tells which), and Type gives   *)
(* it the next thing the user types when it waits for input.  All three are *)
(* functions, so that the same machine is                                   *)
(*  - explored with TLC in every interleaving with another process, a crash *)
(*    at every point and faults (MCCli),                                    *)
(*  - the source of scenarios (GenCli),                                     *)
(*  - compared with what the real command did (TraceCli).                   *)
(* What the command draws at random (seed, creation time, salt) is given in *)
(* p.fresh.                                                                 *)
(*                                                                          *)
(* A configuration c (the meaning of the command line and its surroundings):*)
(*   cmd        "generate", "recover", "convert"                            *)
(*   help       only the usage is wanted                                    *)
(*   valid      the options are acceptable                                  *)
(*   lockkeys, lockphrase, in, out, entropy                                 *)
(*   key        what the key options select (opaque here)                   *)
(*   tty        standard input is a terminal; simple: line mode asked for   *)
(*   feed       what standard input holds otherwise                         *)
(*   verbose    details are to be shown                                     *)
(*   stdout     "pipe", "full", "broken", "block";  disk: "ok" or "full"    *)
(*   source     "ok" or "unreadable": the word or entropy file              *)
(*   line       "ok" or "dead": whether the terminal delivers what is typed *)
(***************************************************************************)
EXTENDS Phrase, WordEntry, TLC

CONSTANTS FileWords(_),       \* file content -> its words as list positions (Unknown for anything else)
          LineWord(_),        \* line typed -> list position, or Unknown
          FeedLines(_),       \* content of a non-terminal standard input -> its lines
          KeyBytes(_),        \* keys typed -> bytes
          SeedOf(_),          \* entropy content -> SeedBits bits, <<>> if there is not enough
          Parent(_),          \* path -> directory, "" for the working directory
          Saved(_),           \* words -> content of their word file
          Target(_),          \* content of a symbolic link -> path
          NoContent,          \* content of an empty file
          PartOf(_)           \* a proper part of a content, as an interrupted write leaves it

Absent == [kind |-> "none", hex |-> NoContent, open |-> FALSE]
FileAt(fs, path) == IF path \in DOMAIN fs THEN fs[path] ELSE Absent
Reached(fs, path) == LET f == FileAt(fs, path) IN IF f.kind = "link" THEN FileAt(fs, Target(f.hex)) ELSE f
File(content, open) == [kind |-> "file", hex |-> content, open |-> open]
With(fs, path, f) == (path :> f) @@ fs

Waiting == {"keys", "lines", "guess", "keypw", "phrpw"}
Final == {"done", "fail", "stuck"}
Prompts == {"guess", "keypw", "phrpw"}

NoFirst == [typed |-> FALSE, pw |-> ""]
Begin(c, fresh) ==
  [c |-> c, fresh |-> fresh, phase |-> "begin", entry |-> EntryStart, words |-> <<>>, need |-> 1,
   first |-> NoFirst,                     \* the first of two passwords, once typed
   bits |-> <<>>, off |-> <<>>, kpw |-> "", ppw |-> "", phrase |-> <<>>,
   created |-> FALSE, printed |-> FALSE, shown |-> FALSE, saved |-> FALSE,
   told |-> {}]                           \* what -verbose made it tell: about the "phrase" read, the "key" printed

To(p, ph) == [p EXCEPT !.phase = ph, !.first = NoFirst]
Fail(p) == To(p, "fail")
Tell(p, what) == IF p.c.verbose THEN [p EXCEPT !.told = @ \cup {what}] ELSE p
(* who asks for no word file wants to see the phrase *)
MayShow(c) == c.cmd # "recover" /\ c.out = ""
Decoded(p, ws) == [To(p, "decode") EXCEPT !.words = ws]

(* a password prompt cannot work without a terminal *)
Ask(p, ph) == IF p.c.tty /\ p.c.line = "ok" THEN To(p, ph) ELSE Fail(p)

(* ------------------------------------------------------------ line by line *)
(* one line of a phrase: anything but a list word, or a first word of an unsupported version, is asked for again *)
TakeLine(p, x) ==
  LET i == LineWord(x)
      firstWord == p.words = <<>>
      need == IF firstWord THEN Calls(i) ELSE p.need
      q == [p EXCEPT !.words = Append(p.words, i), !.need = need]
  IN IF i = Unknown THEN p
     ELSE IF firstWord /\ need = 0 THEN p
     ELSE IF Len(q.words) = need THEN Decoded(q, q.words) ELSE q
TakeFeed(p, ls) == LET q == FoldLeft(LAMBDA x, y : IF x.phase = "lines" THEN TakeLine(x, y) ELSE x, p, ls)
                   IN IF q.phase = "lines" THEN Fail(q) ELSE q

(* --------------------------------------------------------------- passwords *)
(* Gets(p, pw): what a prompt does with the password it was after *)
Gets(p, pw) ==
  CASE p.phase = "guess" ->
         LET g == Guess(Fields(p.words), pw)
         IN IF g.ok THEN [To(p, "ready") EXCEPT !.bits = g.seed, !.off = Fields(p.words).offset] ELSE To(p, "guess")
    [] p.phase = "keypw" -> [To(p, "keyed") EXCEPT !.kpw = pw]
    [] p.phase = "phrpw" ->
         [To(p, "encoded") EXCEPT !.ppw = pw, !.phrase = EncryptedPhrase(p.bits, p.off, pw, p.fresh.salt)]
Confirms(ph) == ph \in {"keypw", "phrpw"}
TakePassword(p, x) ==
  IF ~p.first.typed
  THEN IF x = "" THEN p
       ELSE IF Confirms(p.phase) THEN [p EXCEPT !.first = [typed |-> TRUE, pw |-> x]]
       ELSE Gets(p, x)
  ELSE IF x = p.first.pw THEN Gets(p, x) ELSE [p EXCEPT !.first = NoFirst]

(* ------------------------------------------------------------------ typing *)
(* an item: t in {"line", "keys", "int", "eof"} and its content hex *)
Type(p, it) ==
  CASE p.phase = "keys" ->
         IF it.t \in {"int", "eof"} THEN Fail(p)
         ELSE LET w == Keys(p.entry, KeyBytes(it))
                  q == [p EXCEPT !.entry = w]
              IN CASE w.end = "done" -> Decoded(q, w.words) [] w.end = "abort" -> Fail(q) [] OTHER -> q
    [] p.phase = "lines" -> IF it.t \in {"int", "eof"} THEN Fail(p) ELSE TakeLine(p, it.hex)
    [] p.phase \in Prompts -> IF it.t = "int" THEN Fail(p)
                              ELSE IF it.t = "eof" THEN p            \* an end of input on a terminal is no line
                              ELSE TakePassword(p, it.hex)
    [] OTHER -> p

(* ---------------------------------------------------------- internal steps *)
BeginStep(p, fs) ==
  LET c == p.c
      ent(content) == IF SeedOf(content) = <<>> THEN Fail(p)
                      ELSE [To(p, "ready") EXCEPT !.bits = SeedOf(content), !.off = p.fresh.off]
      f == Reached(fs, c.in)
      e == Reached(fs, c.entropy)
  IN IF c.help THEN To(p, "done")
     ELSE IF ~c.valid THEN Fail(p)
     ELSE IF c.cmd = "generate"
     THEN IF c.entropy = "" THEN [To(p, "ready") EXCEPT !.bits = p.fresh.bits, !.off = p.fresh.off]
          ELSE IF c.entropy = "-" THEN ent(c.feed)
          ELSE IF e.kind = "file" /\ c.source = "ok" THEN ent(e.hex) ELSE Fail(p)
     ELSE IF c.in # "" THEN IF f.kind = "file" /\ c.source = "ok" THEN Decoded(p, FileWords(f.hex)) ELSE Fail(p)
     ELSE IF ~c.tty THEN TakeFeed(To(p, "lines"), FeedLines(c.feed))
     ELSE IF c.line = "dead" THEN Fail(p)
     ELSE To(p, IF c.simple THEN "lines" ELSE "keys")

DecodeStep(p) ==
  IF ~WellFormed(p.words) THEN Fail(p)
  ELSE LET f == Fields(p.words)
           q == Tell(p, "phrase")
       IN IF f.version = Encrypted THEN Ask(q, "guess") ELSE [To(q, "ready") EXCEPT !.bits = f.body, !.off = f.offset]

Internal(p, fs) ==          \* -> [p, fs]
  LET c == p.c
      same(q) == [p |-> q, fs |-> fs]
  IN CASE p.phase = "begin" -> same(BeginStep(p, fs))
       [] p.phase = "decode" -> same(DecodeStep(p))
       [] p.phase = "ready" -> same(IF c.cmd # "convert" /\ c.lockkeys THEN Ask(p, "keypw") ELSE To(p, "keyed"))
       [] p.phase = "keyed" ->
            same(IF c.cmd = "recover" THEN To(p, "print")
                 ELSE IF c.lockphrase THEN Ask(p, "phrpw")
                 ELSE [To(p, "encoded") EXCEPT !.phrase = PlainPhrase(p.bits, p.off)])
       [] p.phase = "encoded" ->
            same(To(p, IF c.out # "" THEN "create" ELSE IF c.cmd = "generate" THEN "print" ELSE "show"))
       [] p.phase = "create" ->
            IF FileAt(fs, c.out).kind # "none" \/ (Parent(c.out) # "" /\ Reached(fs, Parent(c.out)).kind # "dir") THEN same(Fail(p))
            ELSE [p |-> [To(p, "write") EXCEPT !.created = TRUE], fs |-> With(fs, c.out, File(NoContent, FALSE))]
       [] p.phase = "write" ->
            IF c.disk = "full" THEN [p |-> Fail(p), fs |-> With(fs, c.out, File(PartOf(Saved(p.phrase)), FALSE))]
            ELSE [p |-> [To(p, IF c.cmd = "generate" THEN "print" ELSE "done") EXCEPT !.saved = TRUE],
                  fs |-> With(fs, c.out, File(Saved(p.phrase), FALSE))]
       [] p.phase = "print" ->
            same(IF c.stdout \in {"full", "broken"} THEN Fail(Tell(p, "key"))
                 ELSE IF c.stdout = "block" THEN To(Tell(p, "key"), "stuck")
                 ELSE [To(Tell(p, "key"), IF c.cmd = "generate" /\ c.out = "" THEN "show" ELSE "done") EXCEPT !.printed = TRUE])
       [] p.phase = "show" -> same([To(p, "done") EXCEPT !.shown = TRUE])

RECURSIVE Settle(_)
Settle(s) == IF s.p.phase \in Waiting \cup Final THEN s ELSE Settle(Internal(s.p, s.fs))

(* the exit the user sees; a run cut short while it waits is "waiting" *)
Exit(p) == CASE p.phase = "done" -> "ok" [] p.phase = "fail" -> "fail" [] OTHER -> "waiting"

(* what the run put on standard output *)
KeyOf(p) == [bits |-> p.bits, off |-> p.off, sel |-> p.c.key, pw |-> p.kpw]
=============================================================================
