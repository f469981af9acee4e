------------------------------- MODULE CliArgs -------------------------------
(***************************************************************************)
(* From the arguments to what is asked for.  Arguments are byte strings.    *)
(* CommandLine(argv) says what they amount to:                              *)
(*   kind "run"    cmd is to be run with the options o                      *)
(*        "help"   the usage of cmd ("" for the whole program) is wanted    *)
(*        "bad"    refused                                                  *)
(* Options start with one or two dashes, a value stands behind "=" or is    *)
(* the next argument (whatever it looks like), a switch takes a value only  *)
(* behind "=", the last of several counts, and the first argument that is   *)
(* not an option - or "--" - ends the options.  No command takes arguments  *)
(* that are not options.                                                    *)
(***************************************************************************)
EXTENDS CliOptions, Prim, TLC

Commands == {"generate", "recover", "convert"}
Switches == {"verbose", "encrypt-keys", "encrypt-phrase", "simple", "self-cert"}
Indices == {"enc-index", "auth-index", "sig-index"}
OptionsOf(cmd) ==
  CASE cmd = "generate" -> {"verbose", "name", "email", "ttl", "encrypt-keys", "only", "out-word-file", "encrypt-phrase", "unsafe-entropy"}
    [] cmd = "recover" -> {"verbose", "name", "email", "ttl", "encrypt-keys", "only", "simple", "in-word-file", "self-cert"} \cup Indices
    [] cmd = "convert" -> {"verbose", "simple", "in-word-file", "out-word-file", "encrypt-phrase"}
    [] OTHER -> {}

B(s) == StringBytes(s)
Yes == {B("1"), B("t"), B("T"), B("true"), B("TRUE"), B("True")}
No == {B("0"), B("f"), B("F"), B("false"), B("FALSE"), B("False")}
HelpNames == {B("h"), B("help")}
(* a number the option can hold at all (64 bits); whether it is a subkey index is decided later *)
MaxNumber == B("18446744073709551615")
Precedes(x, y) == \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
Number(s) == /\ Decimal(s) /\ (Len(s) > 1 => s[1] # 48)
             /\ Len(s) < Len(MaxNumber) \/ (Len(s) = Len(MaxNumber) /\ ~Precedes(MaxNumber, s))

(* Reads options: kind "run" (all were options), "args" (rest begins with something else), "help", "bad".    *)
(* o holds the options given: bytes, or a truth value for a switch.                                          *)
Give(o, x, v) == (x :> v) @@ o
RECURSIVE Scan(_, _, _)
Scan(cmd, args, o) ==
  IF args = <<>> THEN [kind |-> "run", o |-> o, rest |-> <<>>]
  ELSE LET a == args[1]
           more == SubSeq(args, 2, Len(args))
           body == SubSeq(a, IF Len(a) > 1 /\ a[2] = 45 THEN 3 ELSE 2, Len(a))
           eqs == {i \in 2..Len(body) : body[i] = 61}
           eq == CHOOSE i \in eqs : \A j \in eqs : i <= j
           has == eqs # {}
           name == IF has THEN SubSeq(body, 1, eq - 1) ELSE body
           given == SubSeq(body, eq + 1, Len(body))
           found == {x \in OptionsOf(cmd) : B(x) = name}
           x == CHOOSE y \in found : TRUE
           bad == [kind |-> "bad", o |-> o, rest |-> <<>>]
       IN IF Len(a) < 2 \/ a[1] # 45 THEN [kind |-> "args", o |-> o, rest |-> args]
          ELSE IF a = <<45, 45>> THEN [kind |-> IF more = <<>> THEN "run" ELSE "args", o |-> o, rest |-> more]
          ELSE IF body[1] \in {45, 61} THEN bad
          ELSE IF found = {} THEN IF name \in HelpNames THEN [kind |-> "help", o |-> o, rest |-> <<>>] ELSE bad
          ELSE IF x \in Switches
          THEN IF ~has THEN Scan(cmd, more, Give(o, x, TRUE))
               ELSE IF given \in Yes THEN Scan(cmd, more, Give(o, x, TRUE))
               ELSE IF given \in No THEN Scan(cmd, more, Give(o, x, FALSE))
               ELSE bad
          ELSE IF ~has /\ more = <<>> THEN bad
          ELSE LET v == IF has THEN given ELSE more[1]
                   left == IF has THEN more ELSE SubSeq(more, 2, Len(more))
               IN IF x \in Indices /\ ~Number(v) THEN bad ELSE Scan(cmd, left, Give(o, x, v))

Nothing == [x \in {} |-> x]
Outcome(kind, cmd, o) == [kind |-> kind, cmd |-> cmd, o |-> o]
CommandLine(argv) ==
  LET root == Scan("", argv, Nothing)
      named == {c \in Commands : B(c) = root.rest[1]}
      cmd == CHOOSE c \in named : TRUE
      args == SubSeq(root.rest, 2, Len(root.rest))
      s == Scan(cmd, args, Nothing)
  IN IF root.kind = "help" THEN Outcome("help", "", Nothing)
     ELSE IF root.kind # "args" THEN Outcome("bad", "", Nothing)
     ELSE IF root.rest[1] = B("help") THEN Outcome("help", "", Nothing)
     ELSE IF named = {} THEN Outcome("bad", "", Nothing)
     ELSE IF args = <<B("help")>> THEN Outcome("help", cmd, Nothing)
     ELSE IF s.kind = "run" THEN Outcome("run", cmd, s.o)
     ELSE Outcome(IF s.kind = "help" THEN "help" ELSE "bad", cmd, Nothing)

(* the value of an option, given or not *)
Default(x) == CASE x = "name" -> B("anonymous") [] x \in Indices -> B("0") [] x = "self-cert" -> TRUE
                [] x \in Switches -> FALSE [] OTHER -> <<>>
Value0(o, x) == IF x \in DOMAIN o THEN o[x] ELSE Default(x)
=============================================================================
