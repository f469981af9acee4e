------------------------------- MODULE GenArgs -------------------------------
(***************************************************************************)
(* Random command lines, written out as scenarios: options of this and      *)
(* other commands in every spelling, values that look like options,         *)
(* repetitions, help in odd places, strays.                                 *)
(***************************************************************************)
EXTENDS CliArgs, Json, IOUtils, Randomization, SequencesExt

VARIABLES hist
Depth == Len(IOEnv.VERIF_DEPTH)
Die == RandomElement(0..(99999 + 0 * Len(hist)))
Pick(x, q) == q[1 + (x % Len(q))]
One(x, k) == x % k = 0

Names == <<"name", "email", "ttl", "only", "verbose", "encrypt-keys", "encrypt-phrase", "simple", "self-cert", "enc-index",
           "auth-index", "sig-index", "in-word-file", "out-word-file", "unsafe-entropy">>
Own(cmd) == SelectSeq(Names, LAMBDA x : x \in OptionsOf(cmd))
Good(x) == CASE x \in {"name", "email"} -> <<"Ada", "a@b.c", " x ", "-h", "--", "-verbose", "a=b", "=", "help", "--name=y">>
             [] x = "ttl" -> <<"1d", "2w", "3M", "10Y", "01y">>
             [] x = "only" -> <<"master", "signing", "encryption,authentication", "master,signing", "signing,signing">>
             [] x \in Indices -> <<"0", "1", "7", "65535", "9">>
             [] x = "in-word-file" -> <<"phrase", "phrase", "locked">>
             [] x = "out-word-file" -> <<"w", "v", "-h", "w=">>
             [] x = "unsafe-entropy" -> <<"ent">>
             [] OTHER -> <<"true", "false", "1", "0", "T", "F">>
Odd(x) == CASE x = "ttl" -> <<"1", "d", "-1d", "0d", "1d ", "-verbose", "help", "1h">>
            [] x = "only" -> <<"Master", "enc", "master,", "signing encryption", "-h">>
            [] x \in Indices -> <<"65536", "-1", "1.5", "x", "18446744073709551615", "18446744073709551616", "99999999999999999999", "+1", " 1", "1 ">>
            [] x \in {"in-word-file", "unsafe-entropy"} -> <<"none", "short", "d">>
            [] x = "out-word-file" -> <<"phrase", "d", "d/y", "none/y">>
            [] x \in Switches -> <<"yes", "TRue", "2", "-1", "on", " true">>
            [] OTHER -> <<"", "", " ">>
Dash(z) == IF One(z, 2) THEN "-" ELSE "--"
(* z: six dice *)
Group(cmd, z) ==
  LET own == Own(cmd)
      x == IF One(z[1], 40) THEN Pick(z[2], Names) ELSE Pick(z[2], own)
      v == IF One(z[3], 14) THEN Pick(z[4], Odd(x)) ELSE IF One(z[3], 25) THEN "" ELSE Pick(z[4], Good(x))
      opt == Dash(z[5]) \o x
  IN IF One(z[6], 40) THEN Pick(z[4], << <<"-h">>, <<"--help">>, <<"-help">>, <<"--h">>, <<"-h=1">>, <<"-help=">> >>)
     ELSE IF One(z[6], 41) THEN Pick(z[4], << <<"---verbose">>, <<"-=1">>, <<"--=">>, <<"-nope">>, <<"--Verbose">>, <<"-verbose ">>, <<"-v">>, <<"-hh">> >>)
     ELSE IF x \in Switches THEN IF z[5] % 4 < 2 THEN <<opt>> ELSE <<opt \o "=" \o v>>
     ELSE IF z[5] % 4 < 2 THEN <<opt, v>> ELSE <<opt \o "=" \o v>>
Line(z, g) ==
  LET cmd == Pick(z[1], <<"generate", "recover", "convert">>)
      lead == IF One(z[2], 30) THEN Pick(z[3], << <<"--">>, <<"-h">>, <<"--help">>, <<"-verbose">>, <<"--", "--">>, <<"">>, <<"-">>, <<"-h=x">> >>) ELSE <<>>
      name == IF One(z[4], 25) THEN Pick(z[5], << <<"help">>, <<"Generate">>, <<>>, <<"generat">>, <<"help", "help">>, <<"recover ">> >>) ELSE <<cmd>>
      tail == IF One(z[6], 12) THEN Pick(z[7], << <<"--">>, <<"help">>, <<"stray">>, <<"-h">>, <<"--", "-h">>, <<"-">>, <<"">>, <<"--", "help">>, <<"-name">>, <<"--ttl">> >>) ELSE <<>>
  IN [argv |-> lead \o name \o FlattenSeq([i \in 1..(z[8] % 6) |-> Group(cmd, g[i])]) \o tail, cmd |-> cmd,
      out |-> "w", stdin |-> IF One(z[9], 5) THEN "null" ELSE "tty", typed |-> z[9] \div 10]

Six == <<Die, Die, Die, Die, Die, Die>>
GenInit == hist = <<>>
GenNext == \E z \in {<<Die, Die, Die, Die, Die, Die, Die, Die, Die>>} : \E g \in {<<Six, Six, Six, Six, Six>>} :
             hist' = Append(hist, Line(z, g))
GenSpec == GenInit /\ [][GenNext]_hist
Emit == Len(hist) = Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
