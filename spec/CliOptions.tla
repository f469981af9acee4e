----------------------------- MODULE CliOptions -----------------------------
(***************************************************************************)
(* What the command line options mean.  Option values are byte strings.     *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

Digit(b) == b \in 48..57
Decimal(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
NoLeadingZeros(s) ==
  LET nz == {i \in 1..Len(s) : s[i] # 48}
  IN IF nz = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in nz : \A j \in nz : i <= j, Len(s))
(* value of at most nine digits *)
Value(s) == FoldLeft(LAMBDA acc, d : 10 * acc + (d - 48), 0, s)

(* x * k on big-endian bytes, for 0 <= k < 2^20 *)
MulBytes(x, k) ==
  LET RECURSIVE go(_, _, _)
      go(i, c, acc) == IF i = 0 THEN acc
                       ELSE LET v == x[i] * k + c IN go(i - 1, v \div 256, <<v % 256>> \o acc)
  IN go(Len(x), 0, <<>>)

(* seconds per unit, as factors; 0 for an unknown unit *)
Factors(u) == CASE u \in {100, 68}  -> <<86400>>           \* d: 24 hours
                [] u \in {119, 87}  -> <<86400, 7>>        \* w
                [] u \in {109, 77}  -> <<3600, 730>>       \* m: a twelfth of a year
                [] u \in {121, 89}  -> <<86400, 365>>      \* y
                [] OTHER -> <<>>

(* [ok, period]: the validity period in seconds as an OpenPGP key carries it, 4 bytes *)
BadTTL == [ok |-> FALSE, period |-> <<>>]
TTL(s) ==
  LET f == IF s = <<>> THEN <<>> ELSE Factors(s[Len(s)])
      d == SubSeq(s, 1, Len(s) - 1)
      n == NoLeadingZeros(d)
      p == FoldLeft(LAMBDA x, k : MulBytes(x, k), BE(Value(n), 8), f)
  IN IF f = <<>> THEN BadTTL
     ELSE IF ~Decimal(d) \/ n = <<>> \/ Len(n) > 9 THEN BadTTL
     ELSE IF SubSeq(p, 1, 4) # Zeros(4) THEN BadTTL
     ELSE [ok |-> TRUE, period |-> SubSeq(p, 5, 8)]

(* a subkey index: [ok, index] *)
Index(s) == IF ~Decimal(s) \/ (Len(s) > 1 /\ s[1] = 48) \/ Len(s) > 5 THEN [ok |-> FALSE, index |-> 0]
            ELSE IF Value(s) > 65535 THEN [ok |-> FALSE, index |-> 0]
            ELSE [ok |-> TRUE, index |-> Value(s)]

(* the comma-separated pieces of a byte string *)
Commas(s) ==
  LET at == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = 44)
      ends == Append(at, Len(s) + 1)
  IN [i \in 1..Len(ends) |-> SubSeq(s, IF i = 1 THEN 1 ELSE ends[i - 1] + 1, ends[i] - 1)]
=============================================================================
