------------------------------ MODULE WordEntry ------------------------------
(***************************************************************************)
(* The interactive prompt for a recovery phrase, key by key.                *)
(*                                                                          *)
(* words: the words accepted so far (list positions), buf: the letters of   *)
(* the word being typed, need: how many words the first word calls for (1   *)
(* while there is none), end: "" / "done" / "abort".                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt

CONSTANTS Completion(_),      \* letters -> position of the first list word that begins so, -1 if none
          Letters(_),         \* position of a list word -> its letters
          Calls(_)            \* position of a first word -> words its phrase has, 0 if its version is unsupported

KeyCtrlC == 3
KeyCtrlD == 4
KeyTab == 9
KeyEnter == 13
KeySpace == 32
KeyLeft == 68            \* last byte of the arrow's escape sequence
KeyBackspace == 127

EntryStart == [words |-> <<>>, buf |-> <<>>, need |-> 1, end |-> ""]

Shorter(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)

Submit(w) ==
  LET i == Completion(w.buf)
      first == w.words = <<>>
      need == IF first THEN Calls(i) ELSE w.need
      ws == Append(w.words, i)
  IN IF i = -1 THEN w
     ELSE IF first /\ need = 0 THEN w
     ELSE [words |-> ws, buf |-> <<>>, need |-> need, end |-> IF Len(ws) = need THEN "done" ELSE ""]

Key(w, b) ==
  CASE b \in {KeyCtrlC, KeyCtrlD} -> [w EXCEPT !.end = "abort"]
    [] b \in 97..122 -> [w EXCEPT !.buf = Append(w.buf, b)]
    [] b = KeyBackspace -> [w EXCEPT !.buf = Shorter(w.buf)]
    [] b = KeyLeft -> [w EXCEPT !.words = Shorter(w.words), !.buf = <<>>, !.need = IF Len(w.words) <= 1 THEN 1 ELSE w.need]
    [] b = KeyTab -> IF Completion(w.buf) = -1 THEN w ELSE [w EXCEPT !.buf = Letters(Completion(w.buf))]
    [] b \in {KeyEnter, KeySpace} -> Submit(w)
    [] OTHER -> w

Keys(w, bs) == FoldLeft(LAMBDA x, b : IF x.end # "" THEN x ELSE Key(x, b), w, bs)
=============================================================================
