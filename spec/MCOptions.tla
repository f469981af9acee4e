------------------------------ MODULE MCOptions ------------------------------
(***************************************************************************)
(* The meaning of option strings, for every string up to a length over a    *)
(* small alphabet, and for every count around each unit's limit, against    *)
(* plain arithmetic.                                                        *)
(***************************************************************************)
EXTENDS CliOptions, TLC

CONSTANTS Chars, MaxLen
VARIABLES s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Chars : s' = Append(s, c)
Spec == Init /\ [][Next]_s

Unit(u) == CASE u \in {100, 68} -> 86400 [] u \in {119, 87} -> 604800 [] u \in {109, 77} -> 2628000 [] u \in {121, 89} -> 31536000 [] OTHER -> 0
(* n * unit < 2^32, in TLC's 32-bit integers: compare hours; 2^32 seconds is 1193046 hours and a bit *)
Hours(n, u) == n * (Unit(u) \div 3600)
Small == {i \in 1..9999 : TRUE}
TTLRight ==
  s # <<>> =>
    LET u == s[Len(s)]
        d == SubSeq(s, 1, Len(s) - 1)
        r == TTL(s)
    IN IF Unit(u) = 0 \/ ~Decimal(d) THEN ~r.ok
       ELSE LET n == Value(d)
            IN /\ r.ok = (n > 0 /\ (n > 60000 => FALSE) /\ Hours(n, u) <= 1193046)
               /\ r.ok => \E h \in {Hours(n, u)} :
                    \* period = 3600 h, compared in two halves
                    LET hi == BEToNat(SubSeq(r.period, 1, 2))
                        lo == BEToNat(SubSeq(r.period, 3, 4))
                    IN \* 65536 hi + lo = 3600 h: check modulo 65536 and the quotient in hours
                       /\ (3600 * (h % 65536)) % 65536 = lo
                       /\ h \div 18 >= hi - 1 /\ h \div 19 <= hi
IndexRight == LET r == Index(s) IN r.ok => Decimal(s) /\ Value(s) = r.index /\ r.index <= 65535
CommasRight == LET c == Commas(s)
               IN /\ Len(c) = 1 + Cardinality({i \in 1..Len(s) : s[i] = 44})
                  /\ \A i \in 1..Len(c) : \A j \in 1..Len(c[i]) : c[i][j] # 44
                  /\ FoldLeft(LAMBDA a, x : a \o <<44>> \o x, <<>>, c) = <<44>> \o s

(* the limits of each unit, by name *)
At(n, u) == LET RECURSIVE dig(_)
                dig(k) == IF k < 10 THEN <<48 + k>> ELSE dig(k \div 10) \o <<48 + (k % 10)>>
            IN TTL(dig(n) \o <<u>>)
ASSUME Limits == /\ At(49710, 100).ok /\ ~At(49711, 100).ok
                 /\ At(7101, 119).ok /\ ~At(7102, 119).ok
                 /\ At(1634, 109).ok /\ ~At(1635, 109).ok
                 /\ At(136, 121).ok /\ ~At(137, 121).ok
                 /\ At(49710, 68).period = <<255, 255, 165, 0>>
                 /\ At(24, 100).period = <<0, 31, 164, 0>>
                 /\ At(2, 121).period = <<3, 194, 103, 0>>
=============================================================================
