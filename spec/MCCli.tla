-------------------------------- MODULE MCCli --------------------------------
(***************************************************************************)
(* The command at toy sizes, with everything that can happen around it: the *)
(* user types anything, another process creates files at any moment, the    *)
(* disk or standard output fails, the command is killed at any point, and   *)
(* runs follow one another over the same files.                             *)
(*                                                                          *)
(* Ghosts: made (the phrases users got, with the key each stands for),      *)
(* owner (who created each file), said (what was typed in this run, latest  *)
(* last), gpw (the password that opened the phrase in this run).            *)
(***************************************************************************)
EXTENDS Cli

CONSTANTS Configs, MaxRuns, MaxCreations, LinesOffered, PasswordsOffered

(* ------------------------------------------------------------- toy parameters *)
tChecksum(p) == <<(FoldLeft(LAMBDA a, i : a + i * p[i], 0, [j \in 1..Len(p) |-> j]) \div 2) % 2>>
PwNum(pw) == CASE pw = "" -> 0 [] pw = "p" -> 1 [] pw = "q" -> 2 [] OTHER -> 3
tPwKey(pw, x) == LET n == PwNum(pw) * 5 + BitsToNat(x) * 3
                 IN [key |-> Bits(n % 4, 2), verify |-> <<((n \div 4) + PwNum(pw)) % 2>>]
tEncipher(k, b) == XorBits(k, b)
tDecipher(k, b) == XorBits(k, b)
ToyList == << <<97>>, <<97, 98>>, <<97, 98, 97>>, <<98>>, <<98, 97>>, <<98, 98>>, <<98, 98, 97>>, <<98, 98, 98>> >>
Starts(w, q) == Len(q) <= Len(w) /\ SubSeq(w, 1, Len(q)) = q
tCompletion(buf) ==
  LET m == {i \in 1..8 : Starts(ToyList[i], buf)}
  IN IF buf = <<>> \/ m = {} THEN -1 ELSE (CHOOSE i \in m : \A j \in m : i <= j) - 1
tLetters(i) == ToyList[i + 1]
tCalls(i) == IF VersionOf(i) \in Supported THEN WordCount(VersionOf(i)) ELSE 0
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7">>
NumOf(x) == IF \E i \in 1..8 : Digits[i] = x THEN (CHOOSE i \in 1..8 : Digits[i] = x) - 1 ELSE Unknown
tFileWords(c) == c
tLineWord(x) == NumOf(x)
tFeedLines(c) == c
tKeyBytes(it) == it.hex
tSeedOf(c) == IF Len(c) < SeedBits THEN <<>> ELSE [i \in 1..SeedBits |-> (c[i] + 2) % 2]
tParent(path) == IF path = "d/x" THEN "d" ELSE ""
tSaved(ws) == ws
tPartOf(c) == IF Len(c) < 2 THEN <<>> ELSE SubSeq(c, 1, Len(c) - 1)
tTarget(c) == "f"
tNoContent == <<>>

(* ------------------------------------------------------------ configurations *)
Base == [cmd |-> "generate", help |-> FALSE, valid |-> TRUE, lockkeys |-> FALSE, lockphrase |-> FALSE, in |-> "", out |-> "", entropy |-> "",
         key |-> "k", tty |-> TRUE, simple |-> TRUE, feed |-> <<>>, stdout |-> "pipe", disk |-> "ok", source |-> "ok", line |-> "ok", verbose |-> FALSE]
Generates == {[Base EXCEPT !.lockkeys = a, !.lockphrase = b, !.out = o] : a \in BOOLEAN, b \in BOOLEAN, o \in {"", "f"}}
Recovers == {[Base EXCEPT !.cmd = "recover", !.lockkeys = a, !.in = i] : a \in BOOLEAN, i \in {"", "f"}}
Converts == {[Base EXCEPT !.cmd = "convert", !.lockphrase = b, !.in = i, !.out = o] : b \in BOOLEAN, i \in {"", "f"}, o \in {"", "g", "f"}}
Faulty == {[c EXCEPT !.stdout = x, !.disk = d] : c \in {[Base EXCEPT !.out = "f"], [Base EXCEPT !.out = "d/x"], [Base EXCEPT !.cmd = "recover", !.in = "f"]},
                                               x \in {"pipe", "full", "block"}, d \in {"ok", "full"}}
          \cup {[Base EXCEPT !.valid = FALSE, !.out = "f"], [Base EXCEPT !.entropy = "f"], [Base EXCEPT !.entropy = "g", !.lockkeys = TRUE, !.tty = FALSE],
                [Base EXCEPT !.cmd = "recover", !.tty = FALSE, !.feed = <<"1", "x", "2">>],
                [Base EXCEPT !.cmd = "recover", !.tty = FALSE, !.feed = <<"1">>]}
FileConfigs == Generates \cup Faulty \cup {c \in Converts : c.in = "f"} \cup {c \in Recovers : c.in = "f"}
LineConfigs == {c \in Recovers \cup Converts : c.in = ""} \cup {c \in Generates : c.out = "" /\ ~c.lockkeys}
PromptConfigs == {c \in Generates : c.out = ""} \cup {[Base EXCEPT !.lockphrase = TRUE, !.out = "f"]}
                 \cup {c \in Recovers : c.in = "f"} \cup {c \in Converts : c.in = "f" /\ c.out = ""}
LineFew == {[Base EXCEPT !.cmd = "recover"], [Base EXCEPT !.cmd = "convert", !.lockphrase = TRUE]}
           \cup {[Base EXCEPT !.cmd = "recover", !.tty = FALSE, !.feed = f] : f \in {<<"1", "x", "2">>, <<"1">>, <<"7", "0", "0", "3">>, <<>>}}
GenConfigs == {[Base EXCEPT !.lockphrase = b, !.lockkeys = b, !.out = "f"] : b \in BOOLEAN} \cup {[Base EXCEPT !.cmd = "recover", !.lockkeys = b, !.in = "f"] : b \in BOOLEAN}
ChainConfigs == {[Base EXCEPT !.out = "f"]} \cup {[Base EXCEPT !.cmd = "convert", !.lockphrase = b, !.in = i, !.out = o] : b \in BOOLEAN, i \in {"f", "g"}, o \in {"g", "h"}}
                \cup {[Base EXCEPT !.cmd = "recover", !.in = i] : i \in {"g", "h"}}
ToldConfigs == {[Base EXCEPT !.verbose = v, !.out = o, !.stdout = x, !.lockphrase = b] : v \in BOOLEAN, o \in {"", "f"}, x \in {"pipe", "full", "block"}, b \in BOOLEAN}
               \cup {[Base EXCEPT !.cmd = "convert", !.verbose = v, !.in = "f", !.out = o, !.lockphrase = b] : v \in BOOLEAN, o \in {"", "g"}, b \in BOOLEAN}
               \cup {[Base EXCEPT !.cmd = "recover", !.verbose = v, !.in = i, !.line = d, !.lockkeys = ~v] : v \in BOOLEAN, i \in {"f", "g", ""}, d \in {"ok", "dead"}}
HelpConfigs == {[c EXCEPT !.help = TRUE] : c \in Faulty \cup PromptConfigs} \cup GenConfigs
KeyConfigs == {[Base EXCEPT !.cmd = "recover", !.simple = FALSE]}

(* ------------------------------------------------------------------ the system *)
VARIABLES fs, p, runs, creations, made, owner, said, gpw
vars == <<fs, p, runs, creations, made, owner, said, gpw>>

NoRun == [phase |-> "none"]
Running == p.phase # "none"
NoFn == [x \in {} |-> x]
FewFresh == {[bits |-> b, off |-> o, salt |-> x] : b \in {<<0, 0>>, <<1, 0>>}, o \in {<<0>>, <<1>>}, x \in {<<0, 1>>, <<1, 0>>}}

Init == /\ fs \in {NoFn, ("f" :> File(<<1, 2>>, TRUE)), ("d" :> [kind |-> "dir", hex |-> NoContent, open |-> FALSE])}
        /\ p = NoRun /\ runs = 0 /\ creations = 0 /\ made = {} /\ said = <<>> /\ gpw = ""
        /\ owner = [x \in DOMAIN fs |-> "other"]

Launch == /\ ~Running /\ runs < MaxRuns
          /\ \E c \in Configs : \E fresh \in (IF c.cmd = "recover" THEN {CHOOSE x \in FewFresh : TRUE} ELSE FewFresh) :
                p' = Begin(c, fresh)
          /\ runs' = runs + 1 /\ said' = <<>> /\ gpw' = ""
          /\ UNCHANGED <<fs, creations, made, owner>>

Work == /\ Running /\ p.phase \notin Waiting \cup Final
        /\ LET n == Internal(p, fs)
           IN /\ p' = n.p /\ fs' = n.fs
              /\ owner' = [x \in DOMAIN n.fs |-> IF x \in DOMAIN owner THEN owner[x] ELSE "run"]
        /\ UNCHANGED <<runs, creations, made, said, gpw>>

Items == IF p.phase \in Prompts
         THEN {[t |-> "line", hex |-> x] : x \in PasswordsOffered \cup {""}} \cup {[t |-> "int", hex |-> ""], [t |-> "eof", hex |-> ""]}
         ELSE IF p.phase = "lines" THEN {[t |-> "line", hex |-> x] : x \in LinesOffered} \cup {[t |-> "eof", hex |-> ""]}
         ELSE {[t |-> "keys", hex |-> <<b>>] : b \in {97, 98, 13, 9, 68, 127, 3}}
UserTypes == /\ Running /\ p.phase \in Waiting
             /\ p.phase = "keys" => Len(p.entry.buf) < 4
             /\ \E it \in Items :
                  /\ p' = Type(p, it)
                  /\ said' = IF p.phase \in Prompts /\ it.t = "line" THEN <<IF said = <<>> THEN "" ELSE said[Len(said)], it.hex>> ELSE said
                  /\ gpw' = IF p.phase = "guess" /\ p'.phase = "ready" THEN it.hex ELSE gpw
             /\ UNCHANGED <<fs, runs, creations, made, owner>>

OtherCreates == /\ creations < MaxCreations
                /\ \E path \in {"f", "g"} :
                     /\ path \notin DOMAIN fs
                     /\ fs' = With(fs, path, File(<<Unknown>>, TRUE))
                     /\ owner' = (path :> "other") @@ owner
                /\ creations' = creations + 1
                /\ UNCHANGED <<p, runs, made, said, gpw>>

Killed == /\ Running /\ p.phase \notin Final /\ p' = NoRun
          /\ UNCHANGED <<fs, runs, creations, made, owner, said, gpw>>

Ends == /\ Running /\ p.phase \in Final
        /\ p' = NoRun
        /\ made' = IF p.phase = "done" /\ p.phrase # <<>>
                   THEN made \cup {[ws |-> p.phrase, pw |-> p.ppw, bits |-> p.bits, off |-> p.off]} ELSE made
        /\ UNCHANGED <<fs, runs, creations, owner, said, gpw>>

Next == Launch \/ Work \/ UserTypes \/ OtherCreates \/ Killed \/ Ends
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* C20, C21: whoever enters a phrase he got, with its password, gets its key and creation time again. *)
PhrasesKeepTheirKeys ==
  Running /\ p.c.cmd # "generate" /\ p.bits # <<>> =>
    \A m \in made : m.ws = p.words /\ (m.pw = "" \/ m.pw = gpw) => p.bits = m.bits /\ p.off = m.off
(* ... and the phrase a run hands out stands for the run's key *)
HandedOut ==
  Running /\ p.phrase # <<>> =>
    LET f == Fields(p.phrase)
    IN /\ WellFormed(p.phrase) /\ f.offset = p.off
       /\ f.version = (IF p.c.lockphrase THEN Encrypted ELSE Plain)
       /\ IF p.c.lockphrase THEN Guess(f, p.ppw) = [ok |-> TRUE, seed |-> p.bits] ELSE f.body = p.bits
(* C19: nothing gets past the input stage but a valid phrase *)
OnlyValidPhrases == Running /\ p.c.cmd # "generate" /\ p.bits # <<>> => WellFormed(p.words)
(* C22 *)
KeyNeedsPhrase == Running /\ p.printed /\ p.c.cmd = "generate" /\ p.c.out # "" =>
                    FileAt(fs, p.c.out) = File(Saved(p.phrase), FALSE) /\ owner[p.c.out] = "run"
SavedIsThere == Running /\ p.saved => FileAt(fs, p.c.out) = File(Saved(p.phrase), FALSE)
NeverOverwritten == [][\A path \in DOMAIN fs : fs'[path] # fs[path] => p.phase = "write" /\ path = p.c.out /\ owner[path] = "run"]_vars
OthersFilesStay == \A path \in DOMAIN fs : owner[path] = "other" => fs[path].open \/ fs[path].kind # "file"
(* C23 *)
FailurePrintsNothing == Running /\ p.phase = "fail" => ~p.printed
ConvertPrintsNothing == Running /\ p.c.cmd = "convert" => ~p.printed
SuccessPrints == Running /\ p.phase = "done" /\ p.c.cmd # "convert" /\ ~p.c.help => p.printed
PrintsOnce == [][Running /\ p.printed => p'.phase \in {"show", "done", "none"}]_vars
(* C24: a new password has been typed twice in a row, the same and not empty *)
TypedTwice == [][Running /\ p'.phase # "none" =>
                 /\ (p'.kpw # p.kpw => said' = <<p'.kpw, p'.kpw>> /\ p'.kpw # "")
                 /\ (p'.ppw # p.ppw => said' = <<p'.ppw, p'.ppw>> /\ p'.ppw # "")]_vars
LockedMeansAsked == Running /\ p.printed => (p.c.lockkeys <=> p.kpw # "")
(* C25 *)
BadOptionsAskNothing == Running /\ ~p.c.valid /\ ~p.c.help => p.phase \in {"begin", "fail"}

(* C29 *)
HelpOnlyHelps == Running /\ p.c.help => p.phase \in {"begin", "done"} /\ ~p.printed /\ ~p.shown /\ ~p.created /\ p.told = {} /\ p.bits = <<>>

(* C28 *)
ShownWhenAsked == Running => /\ p.shown => MayShow(p.c)
                             /\ p.phase = "done" /\ p.c.cmd # "recover" /\ ~p.c.help => (p.shown <=> p.c.out = "") /\ (p.saved <=> p.c.out # "")
ToldWhenAsked == Running => /\ p.told # {} => p.c.verbose
                            /\ p.printed => ("key" \in p.told <=> p.c.verbose)
                            /\ "phrase" \in p.told => WellFormed(p.words)
Quiet(x) == [x EXCEPT !.told = {}, !.c.verbose = FALSE]
TellingChangesNothing ==
  /\ Running /\ p.phase \notin Waiting \cup Final => LET a == Internal(p, fs) b == Internal(Quiet(p), fs) IN Quiet(a.p) = b.p /\ a.fs = b.fs
  /\ Running /\ p.phase \in Waiting /\ p.phase # "keys" => \A it \in Items : Quiet(Type(p, it)) = Type(Quiet(p), it)
DeadLineAsksNothing == Running /\ p.c.line = "dead" => p.phase \notin Waiting

Inv == /\ HelpOnlyHelps
       /\ ShownWhenAsked /\ ToldWhenAsked /\ TellingChangesNothing /\ DeadLineAsksNothing
       /\ PhrasesKeepTheirKeys /\ HandedOut /\ OnlyValidPhrases /\ KeyNeedsPhrase /\ SavedIsThere /\ OthersFilesStay
       /\ FailurePrintsNothing /\ ConvertPrintsNothing /\ SuccessPrints /\ LockedMeansAsked /\ BadOptionsAskNothing
=============================================================================
