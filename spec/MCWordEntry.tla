----------------------------- MODULE MCWordEntry -----------------------------
(***************************************************************************)
(* Every keystroke sequence at the interactive prompt, over a toy list of   *)
(* eight words with shared prefixes (two words call for two words, two for  *)
(* three, four are of an unsupported version).  latest and at are kept      *)
(* independently of the prompt's own state: the word last accepted at each  *)
(* position, and the position being entered.                                *)
(***************************************************************************)
EXTENDS WordEntry, FiniteSets

CONSTANTS Alphabet, MaxBuf

ToyList == << <<97>>, <<97, 98>>, <<97, 98, 97>>, <<98>>, <<98, 97>>, <<98, 98>>, <<98, 98, 97>>, <<98, 98, 98>> >>
Begins(w, p) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p
tCompletion(buf) ==
  LET m == {i \in 1..8 : Begins(ToyList[i], buf)}
  IN IF buf = <<>> \/ m = {} THEN -1 ELSE (CHOOSE i \in m : \A j \in m : i <= j) - 1
tLetters(i) == ToyList[i + 1]
tCalls(i) == CASE i \in {0, 1} -> 2 [] i \in {2, 3} -> 3 [] OTHER -> 0

VARIABLES w, latest, at
vars == <<w, latest, at>>

Init == w = EntryStart /\ latest = <<0, 0, 0>> /\ at = 1
Press(b) ==
  /\ w.end = ""
  /\ b \in 97..122 => Len(w.buf) < MaxBuf
  /\ w' = Key(w, b)
  /\ LET hits == {i \in 0..7 : w.buf # <<>> /\ Begins(tLetters(i), w.buf) /\ (at = 1 => tCalls(i) > 0 \/ \E j \in 0..(i - 1) : Begins(tLetters(j), w.buf))}
         pick == CHOOSE i \in hits : \A j \in hits : i <= j
         accepts == b \in {KeyEnter, KeySpace} /\ hits # {} /\ (at = 1 => tCalls(pick) > 0)
     IN IF accepts THEN latest' = [latest EXCEPT ![at] = pick] /\ at' = at + 1
        ELSE IF b = KeyLeft THEN latest' = latest /\ at' = IF at > 1 THEN at - 1 ELSE 1
        ELSE UNCHANGED <<latest, at>>
Next == \E b \in Alphabet : Press(b)
Spec == Init /\ [][Next]_vars

Inv == /\ at = Len(w.words) + 1
       /\ \A i \in 1..Len(w.words) : w.words[i] = latest[i]
       /\ w.words # <<>> => w.need = tCalls(latest[1]) /\ w.need > 0
       /\ (w.end = "done") <=> (w.words # <<>> /\ Len(w.words) = tCalls(latest[1]))
(* only ctrl-C and ctrl-D abort; nothing else can lose an accepted word except the arrow, and only the last one *)
Steps == [][/\ w'.end = "abort" => w'.words = w.words
            /\ Len(w'.words) < Len(w.words) => at' = at - 1 /\ w'.words = Shorter(w.words) /\ w'.buf = <<>>
            /\ Len(w'.words) <= Len(w.words) + 1]_vars
=============================================================================
