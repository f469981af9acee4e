---------------------------- MODULE GenWordEntry ----------------------------
(***************************************************************************)
(* Random ways of entering a valid phrase at the interactive prompt: typing *)
(* and completing words, typos, words accepted in the wrong place, revising *)
(* with the arrow across the first word and between phrase lengths, input   *)
(* that must be refused.  Runs on the real list; every behaviour ends with  *)
(* the entry done or aborted and is written out as the keys pressed.        *)
(***************************************************************************)
EXTENDS WordEntry, Phrase, Derive, Json, IOUtils, Randomization

VARIABLES w, goal, keys, n
vars == <<w, goal, keys, n>>

WordList == JsonDeserialize(IOEnv.VERIF_WORDLIST)
Patience == Len(IOEnv.VERIF_DEPTH)
Facts == [x \in {} |-> x]
rCompletion(buf) == IF buf = <<>> THEN -1 ELSE FirstWithPrefix(WordList, buf)
rLetters(i) == StringBytes(WordList[i + 1])
rCalls(i) == IF VersionOf(i) \in Supported THEN WordCount(VersionOf(i)) ELSE 0

Die == RandomElement(0..(99999 + 0 * Len(keys)))
Coins(k) == [i \in 1..k |-> RandomElement({0, 1 + 0 * n})]

Goals == {"plain", "locked"}
Init == /\ w = EntryStart /\ keys = <<>> /\ n = 0 /\ goal = <<>>
Choose ==
  /\ goal = <<>>
  /\ \E bits \in {Coins(SeedBits)}, off \in {Coins(OffsetBits)}, salt \in {Coins(SaltBits)}, d \in {Die} :
        goal' = IF d % 5 < 3 THEN PlainPhrase(bits, off) ELSE EncryptedPhrase(bits, off, "7077", salt)
  /\ n' = 0 /\ UNCHANGED <<w, keys>>

Is(b, wd) == Len(b) <= Len(wd) /\ SubSeq(wd, 1, Len(b)) = b
Rep(b, k) == [i \in 1..k |-> b]
Arrow == <<27, 91, 68>>
OnTrack == w.words = SubSeq(goal, 1, Len(w.words))
(* the word wanted at this position (any list word past the end of the goal) *)
Wanted == IF Len(w.words) < Len(goal) THEN rLetters(goal[Len(w.words) + 1]) ELSE <<97>>
(* shortest beginning of the wanted word that completes to it *)
Short == LET wd == Wanted
             i == goal[Len(w.words) + 1]
             ks == {k \in 1..Len(wd) : rCompletion(SubSeq(wd, 1, k)) = i}
         IN SubSeq(wd, 1, CHOOSE k \in ks : \A j \in ks : k <= j)
RestOf(s) == SubSeq(s, Len(w.buf) + 1, Len(s))
End(z) == <<IF z % 2 = 0 THEN KeyEnter ELSE KeySpace>>

(* a way of typing the wanted word, given that buf begins it *)
Good(z) ==
  LET short == Short
      fits == Len(w.buf) <= Len(short)
  IN CASE z % 4 = 0 -> RestOf(Wanted) \o End(z \div 4)
       [] z % 4 = 1 /\ fits -> RestOf(short) \o End(z \div 4)
       [] z % 4 = 2 /\ fits -> RestOf(short) \o <<KeyTab>> \o End(z \div 4)
       [] z % 4 = 3 /\ fits -> RestOf(short) \o <<KeyTab>> \o Rep(KeyBackspace, Len(Wanted) - Len(short)) \o SubSeq(Wanted, Len(short) + 1, Len(Wanted)) \o End(z \div 4)
       [] OTHER -> RestOf(Wanted) \o End(z)
Clear == Rep(KeyBackspace, Len(w.buf))
Noise(z) == CASE z % 6 = 0 -> <<27, 91, 65>> [] z % 6 = 1 -> <<49, 50>> [] z % 6 = 2 -> <<65, 90>>
              [] z % 6 = 3 -> <<27, 91, 67>> [] z % 6 = 4 -> <<0, 1, 5>> [] OTHER -> <<195, 164>>
AnyWord(z) == rLetters(z % 4096)

Gesture(z1, z2, z3, z4) ==
  LET calm == n > Patience
      prefix == Is(w.buf, Wanted)
  IN IF ~OnTrack /\ (calm \/ z1 % 10 < 7)
     THEN IF z2 % 3 = 0 THEN Noise(z3) \o Arrow ELSE Arrow
     ELSE IF ~prefix /\ (calm \/ z1 % 10 < 6) THEN Clear
     ELSE IF OnTrack /\ prefix /\ (calm \/ z1 % 100 < 72) THEN Good(z2)
     ELSE CASE z3 % 11 = 0 -> <<97 + (z2 % 26), 97 + (z4 % 26)>>
            [] z3 % 11 = 1 -> Rep(KeyBackspace, 1 + (z2 % 4))
            [] z3 % 11 = 2 -> End(z2)
            [] z3 % 11 = 3 -> <<KeyTab>>
            [] z3 % 11 = 4 -> Arrow
            [] z3 % 11 = 5 -> Noise(z2)
            [] z3 % 11 = 6 -> Clear \o AnyWord(z4) \o End(z2)
            [] z3 % 11 = 7 -> Clear \o AnyWord(z4 % (IF w.words = <<>> THEN 512 ELSE 4096)) \o End(z2) \o Arrow
            \* too many letters: refused until the surplus is taken back
            [] z3 % 11 \in {9, 10} -> LET k == 1 + (z4 % (IF z2 % 3 = 0 THEN 30 ELSE 3))
                                  IN (IF prefix THEN RestOf(Wanted) ELSE Clear \o Wanted) \o Rep(97 + (z4 % 26), k)
                                     \o End(z2) \o (IF z1 % 2 = 0 THEN <<KeyTab>> ELSE <<>>) \o Rep(KeyBackspace, k) \o (IF OnTrack THEN End(z4) ELSE <<>>)
            [] z3 % 11 = 8 -> IF z4 % 25 = 0 /\ n > 5 THEN <<3 + (z2 % 2)>> ELSE Arrow \o Arrow

Presses ==
  /\ goal # <<>> /\ w.end = ""
  /\ \E g \in {Gesture(Die, Die, Die, Die)} :
        LET fold == FoldLeft(LAMBDA a, b : IF a.w.end # "" THEN a ELSE [w |-> Key(a.w, b), k |-> Append(a.k, b)], [w |-> w, k |-> <<>>], g)
        IN w' = fold.w /\ keys' = Append(keys, ToHex(fold.k))
  /\ n' = n + 1 /\ UNCHANGED goal
Next == Choose \/ Presses
Spec == Init /\ [][Next]_vars

Emit == w.end # "" => PrintT("SCRIPT " \o ToJson([keys |-> keys, end |-> w.end, right |-> w.words = goal, locked |-> Len(goal) = WordCount(Encrypted)]))
=============================================================================
