------------------------------- MODULE MCArgs -------------------------------
(***************************************************************************)
(* Every list of arguments up to a length, over tokens that meet every rule *)
(* of the grammar.                                                          *)
(***************************************************************************)
EXTENDS CliArgs

CONSTANTS Tokens, MaxArgs
VARIABLES argv
Init == argv = <<>>
Next == Len(argv) < MaxArgs /\ \E x \in Tokens : argv' = Append(argv, x)
Spec == Init /\ [][Next]_argv

Bytes0(q) == [i \in 1..Len(q) |-> B(q[i])]
Of(q) == CommandLine(Bytes0(q))
Now == Of(argv)

Sane == /\ Now.kind \in {"run", "help", "bad"}
        /\ Now.kind = "run" => Now.cmd \in Commands /\ DOMAIN Now.o \subseteq OptionsOf(Now.cmd)
        /\ Now.kind # "run" => Now.o = Nothing
(* only a list that begins with a command can run something or be about it *)
CommandFirst == Now.cmd # "" => \E i \in {1, 2} : i <= Len(argv) /\ argv[i] = Now.cmd /\ (i = 2 => argv[1] = "--")
(* help right behind the command comes first, whatever else is wrong *)
HelpWins == \A c \in Commands : \A h \in {"-h", "--h", "-help", "--help", "-h=x"} :
               LET x == Of(<<c, h>> \o argv) IN x.kind = "help" /\ x.cmd = c
(* ... and "help" in the place of the command *)
HelpFirst == LET x == Of(<<"help">> \o argv) IN x.kind = "help" /\ x.cmd = ""
(* nothing behind a complete list of options goes unnoticed *)
NoStrays == Now.kind = "run" =>
              \A x \in {"stray", "-", "generate", "0", "true", "help"} :
                  argv \notin {<<Now.cmd>>, <<"--", Now.cmd>>} \/ x # "help" => Of(argv \o <<x>>).kind = "bad"
(* the last one counts, and only for itself *)
Ended == \E i \in 2..Len(argv) : argv[i] = "--" /\ Of(SubSeq(argv, 1, i - 1)).kind = "run"
LastCounts ==
  Now.kind = "run" /\ ~Ended =>
    /\ LET x == Of(argv \o <<"-verbose=0">>) IN x.kind = "run" /\ x.o = Give(Now.o, "verbose", FALSE)
    /\ Now.cmd # "convert" => LET x == Of(argv \o <<"--name", "-h">>) IN x.kind = "run" /\ x.o = Give(Now.o, "name", B("-h"))
(* both spellings of a value mean the same *)
Joined(i) == [j \in 1..(Len(argv) - 1) |-> IF j < i THEN argv[j] ELSE IF j = i THEN argv[i] \o "=" \o argv[i + 1] ELSE argv[j + 1]]
Spellings == \A i \in 2..(Len(argv) - 1) :
               Of(SubSeq(argv, 1, i - 1)).kind = "run" /\ argv[i] \in {"-name", "--ttl", "-enc-index"} /\ ~Ended
                 => Of(Joined(i)) = Now
(* "--" at the end changes nothing *)
Terminator == Now.kind = "run" /\ ~Ended => Of(Append(argv, "--")) = Now
=============================================================================
