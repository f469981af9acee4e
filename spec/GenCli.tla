------------------------------- MODULE GenCli -------------------------------
(***************************************************************************)
(* Random histories of the command at toy sizes, written out as scenarios.  *)
(* Words and passwords are named symbolically (word i of the phrase run k   *)
(* produced, password "p"); the driver replays them with real ones.  The    *)
(* toy machine runs along, so that what is typed fits the prompt that waits.*)
(***************************************************************************)
EXTENDS MCCli, Json, IOUtils, Randomization

VARIABLES hist, got, goal
gvars == <<vars, hist, got, goal>>

Focus == JsonDeserialize(IOEnv.VERIF_FOCUS)      \* sequence of kinds of run, repetition = weight
Depth == Len(IOEnv.VERIF_DEPTH)
Pick(x, S) == SetToSeq(S)[1 + (x % Cardinality(S))]
One(x, k) == x % k = 0
Die == RandomElement(0..(99999 + 0 * Len(hist)))

(* got: the phrases handed out so far: [ws, pw, run, file] *)
Outs == {"", "", "f", "g", "h", "j", "d/x", "n/x", "d"}
FreshOuts == {o \in {"f", "g", "h"} : o \notin DOMAIN fs}
PickOut(z, y) == IF z % 10 < 3 THEN "" ELSE IF z % 10 < 8 /\ FreshOuts # {} THEN Pick(y, FreshOuts) ELSE Pick(y, Outs)
PickIn(z, y) ==
  LET known == {got[i].file : i \in 1..Len(got)} \ {""}
  IN IF z % 10 < 5 /\ known # {} THEN Pick(y, known) ELSE IF z % 10 < 8 THEN "" ELSE Pick(y, {"j", "n", "d", "f", "l"})

KeySyms == [name : {"default", "plain", "blank", "odd"}, email : {"none", "plain", "padded"},
            ttl : {"none", "none", "days", "weeks", "years", "max"}, only : {"all", "all", "master", "enc", "two", "subs"},
            ix : {"zero", "zero", "some", "last"}, cert : BOOLEAN]

MakeConfig(kind, z) ==
  LET tty == ~One(z[6], 6)
      c == [Base EXCEPT
             !.cmd = IF kind \in {"generate", "recover", "convert"} THEN kind ELSE "generate",
             !.lockkeys = One(z[1], 3), !.lockphrase = One(z[2], 2),
             !.out = IF kind = "recover" THEN "" ELSE PickOut(z[3], z[4]),
             !.in = IF kind = "generate" THEN "" ELSE PickIn(z[3] \div 10, z[4] \div 7),
             !.entropy = IF kind = "generate" /\ One(z[5], 4) THEN Pick(z[5], {"e16", "e40", "e3", "n"}) ELSE "",
             !.stdout = IF One(z[7], 9) THEN Pick(z[7] \div 9, {"full", "broken", "block"}) ELSE "pipe",
             !.disk = IF One(z[8], 14) THEN "full" ELSE "ok",
             !.verbose = One(z[14], 3),
             !.tty = tty]
  IN [c EXCEPT !.lockkeys = @ /\ kind # "convert", !.lockphrase = @ /\ kind # "recover"]

Launched(kind, z) ==
  LET c == MakeConfig(kind, z)
      g == IF got = <<>> THEN 0 ELSE 1 + (z[9] % Len(got))
      gg == IF One(z[10], 9) THEN 0 ELSE g
      ws == IF gg = 0 THEN <<1, 2>> ELSE got[gg].ws
      cut == One(z[11], 7)
      cc == [c EXCEPT !.feed = IF c.tty THEN <<>> ELSE [i \in 1..(Len(ws) - (IF cut THEN 1 ELSE 0)) |-> Digits[1 + (IF ws[i] < 0 THEN 0 ELSE ws[i])]]]
      fresh == Pick(z[12], FewFresh)
      s == Settle([p |-> Begin(cc, fresh), fs |-> fs])
  IN [s |-> s, goal |-> gg,
      log |-> [op |-> "run", cmd |-> c.cmd, lockkeys |-> c.lockkeys, lockphrase |-> c.lockphrase, in |-> c.in, out |-> c.out,
               entropy |-> c.entropy, stdout |-> c.stdout, fsize |-> c.disk = "full", tty |-> c.tty, interactive |-> One(z[13], 2),
               verbose |-> c.verbose, win |-> z[15] % 7, cut |-> cut,
               goal |-> IF gg = 0 THEN 0 ELSE got[gg].run, key |-> Pick(z[16], KeySyms)]]

Launching ==
  /\ ~Running
  /\ \E z \in {<<Die, Die, Die, Die, Die, Die, Die, Die, Die, Die, Die, Die, Die, Die, Die, Die, Die>>} :
     \E n \in {Launched(IF got = <<>> /\ z[13] % 10 > 0 THEN "generate" ELSE Focus[1 + (z[17] % Len(Focus))], z)} :
       /\ p' = n.s.p /\ fs' = n.s.fs /\ goal' = n.goal
       /\ hist' = Append(hist, n.log)
  /\ runs' = runs + 1 /\ UNCHANGED <<creations, made, owner, said, gpw, got>>

RightPw == IF goal = 0 THEN "p" ELSE IF got[goal].pw = "" THEN "p" ELSE got[goal].pw
Item(z) ==           \* [sym, it]
  LET line(k, x) == [sym |-> [op |-> "type", k |-> k, x |-> x, i |-> 0], it |-> [t |-> "line", hex |-> x]]
      at == Len(p.words) + 1
      ws == IF goal = 0 THEN <<1, 2>> ELSE got[goal].ws
  IN IF One(z[1], 23) THEN [sym |-> [op |-> "type", k |-> "int", x |-> "", i |-> 0], it |-> [t |-> "int", hex |-> ""]]
     ELSE IF One(z[2], 29) THEN [sym |-> [op |-> "type", k |-> "eof", x |-> "", i |-> 0], it |-> [t |-> "eof", hex |-> ""]]
     ELSE IF p.phase = "lines"
     THEN IF goal # 0 /\ at <= Len(ws) /\ z[3] % 10 < 7
          THEN [sym |-> [op |-> "type", k |-> "word", x |-> Pick(z[4], {"exact", "case", "blanks"}), i |-> at],
                it |-> [t |-> "line", hex |-> Digits[1 + ws[at]]]]
          ELSE Pick(z[4], {line("junk", "x"), line("version", "7"), line("junk", "y"), line("other", Digits[1 + (z[5] % 4)])})
     ELSE IF One(z[3], 8) THEN line("pw", "")
     ELSE IF p.phase = "guess" THEN line("pw", IF z[4] % 10 < 6 THEN RightPw ELSE Pick(z[5], {"p", "q", "r"}))
     ELSE IF p.first.typed /\ z[4] % 10 < 8 THEN line("pw", p.first.pw)
     ELSE line("pw", Pick(z[5], {"p", "q", "r"}))

Typing ==
  /\ Running /\ p.phase \in Waiting
  /\ \E z \in {<<Die, Die, Die, Die, Die, Die>>} :
       IF One(z[6], 15) /\ p.c.out \in {"f", "g", "h"} /\ p.c.out \notin DOMAIN fs
       THEN /\ fs' = With(fs, p.c.out, File(<<Unknown>>, TRUE))
            /\ hist' = Append(hist, [op |-> "type", k |-> "touch", x |-> p.c.out, i |-> 0]) /\ p' = p
       ELSE \E i \in {Item(z)} : \E s \in {Settle([p |-> Type(p, i.it), fs |-> fs])} :
              p' = s.p /\ fs' = s.fs /\ hist' = Append(hist, i.sym)
  /\ UNCHANGED <<runs, creations, made, owner, said, gpw, got, goal>>

Ending ==
  /\ Running /\ p.phase \in Final
  /\ p' = NoRun /\ goal' = 0 /\ hist' = Append(hist, [op |-> "end"])
  /\ got' = IF p.phrase # <<>> /\ (p.saved \/ p.shown)
            THEN Append(got, [ws |-> p.phrase, pw |-> p.ppw, run |-> runs, file |-> IF p.saved THEN p.c.out ELSE ""]) ELSE got
  /\ UNCHANGED <<fs, runs, creations, made, owner, said, gpw>>

GenInit == /\ fs = ("j" :> File(<<Unknown>>, TRUE)) @@ ("d" :> [kind |-> "dir", hex |-> NoContent, open |-> FALSE])
                   @@ ("e16" :> File(<<1, 0>>, TRUE)) @@ ("e40" :> File(<<0, 1, 1>>, TRUE)) @@ ("e3" :> File(<<1>>, TRUE))
                   @@ ("l" :> [kind |-> "link", hex |-> NoContent, open |-> FALSE])
           /\ p = NoRun /\ runs = 0 /\ creations = 0 /\ made = {} /\ said = <<>> /\ gpw = "" /\ owner = NoFn
           /\ hist = <<>> /\ got = <<>> /\ goal = 0
GenNext == Launching \/ Typing \/ Ending
GenSpec == GenInit /\ [][GenNext]_gvars
Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
