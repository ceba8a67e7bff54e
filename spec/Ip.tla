--------------------------------- MODULE Ip ---------------------------------
(* The networks that enclose an IPv4 address, and the clues made of them     *)
(* (C25). An address is the sequence of its octets, here of Octet values.    *)
EXTENDS Integers, Sequences, TLC
Octet == 256
Width == 8
DefaultLengths == <<8, 16, 24, 32>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* How many bits of octet j belong to the first n bits of an address.
BitsIn(j, n) == LET k == n - Width * (j - 1) IN IF k < 0 THEN 0 ELSE IF k > Width THEN Width ELSE k
\* The top k bits of an octet, the others zero.
Top(o, k) == LET m == Pow2(Width - k) IN o - (o % m)
Net(a, n) == [j \in DOMAIN a |-> Top(a[j], BitsIn(j, n))]

\* bit number b (1 is the most significant) of an address
Bit(a, b) == LET j == ((b - 1) \div Width) + 1
                 r == Width - 1 - ((b - 1) % Width)
             IN (a[j] \div Pow2(r)) % 2

\* ---- as text ----
RECURSIVE Dotted(_)
Dotted(a) == IF Len(a) = 1 THEN ToString(a[1]) ELSE ToString(a[1]) \o "." \o Dotted(Tail(a))
NetText(a, n) == Dotted(Net(a, n)) \o "/" \o ToString(n)
Subnets(a, lengths) == [j \in DOMAIN lengths |-> NetText(a, lengths[j])]
ClueTexts(prefix, a) == [j \in DOMAIN DefaultLengths |-> prefix \o ":" \o NetText(a, DefaultLengths[j])]
=============================================================================
