-------------------------------- MODULE Cdb --------------------------------
(* Constant databases (C10). An abstract database is a sequence of pairs     *)
(* <<key, value>>. The format is specified by a reader of its own, written   *)
(* from the description of the format and not from the code: it works on     *)
(* the bytes of a file (a sequence of 0..255).                               *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

\* ---- what a database means ----
Has(pairs, k) == \E i \in DOMAIN pairs : pairs[i][1] = k
First(pairs, k) == pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = k /\ \A j \in 1 .. i - 1 : pairs[j][1] /= k][2]
\* the values of a key, in the order in which they are found one after another
RECURSIVE AllFrom(_, _, _)
AllFrom(pairs, k, i) == IF i > Len(pairs) THEN <<>>
                        ELSE (IF pairs[i][1] = k THEN <<pairs[i][2]>> ELSE <<>>) \o AllFrom(pairs, k, i + 1)
All(pairs, k) == AllFrom(pairs, k, 1)

\* ---- the hash: h = (33 * h) xor c, in two halves of 16 bits ----
RECURSIVE HashFrom(_, _, _)
HashFrom(k, i, h) ==
    IF i > Len(k) THEN h
    ELSE LET lo == h[2] * 33
             hi == (h[1] * 33 + lo \div 65536) % 65536
         IN HashFrom(k, i + 1, <<hi, (lo % 65536) ^^ k[i]>>)
Hash(k) == HashFrom(k, 1, <<0, 5381>>)
Table(h) == h[2] % 256
StartSlot(h, n) == (h[1] * 256 + h[2] \div 256) % n

\* ---- reading numbers; -1 for what cannot be an offset or length here ----
Byte(f, o) == f[o + 1]
Num(f, o) == IF o < 0 \/ o + 4 > Len(f) THEN -1
             ELSE IF Byte(f, o + 3) /= 0 THEN -1
             ELSE Byte(f, o) + 256 * Byte(f, o + 1) + 65536 * Byte(f, o + 2)
Halves(f, o) == <<Byte(f, o + 2) + 256 * Byte(f, o + 3), Byte(f, o) + 256 * Byte(f, o + 1)>>
Bytes(f, o, n) == SubSeq(f, o + 1, o + n)

\* ---- the records: from 2048 up to the first table ----
Eod(f) == Num(f, 0)
RECURSIVE RecordsFrom(_, _)
\* A sequence of [pos, key, val], or <<"bad">> at the end if they do not parse.
RecordsFrom(f, o) ==
    IF o = Eod(f) THEN <<>>
    ELSE LET kl == Num(f, o)
             vl == Num(f, o + 4)
         IN IF kl < 0 \/ vl < 0 \/ o + 8 + kl + vl > Eod(f) THEN <<[pos |-> -1, key |-> <<>>, val |-> <<>>]>>
            ELSE <<[pos |-> o, key |-> Bytes(f, o + 8, kl), val |-> Bytes(f, o + 8 + kl, vl)]>>
                 \o RecordsFrom(f, o + 8 + kl + vl)
TablePos(f, t) == Num(f, 8 * t)
TableLen(f, t) == Num(f, 8 * t + 4)

\* ---- looking a key up ----
RECURSIVE Probe(_, _, _, _, _, _)
Probe(f, k, h, tp, n, at) ==
    \* at: <<slot, number of slots looked at>>
    IF at[2] = n THEN [found |-> FALSE, val |-> <<>>]
    ELSE LET o == tp + 8 * at[1]
             p == Num(f, o + 4)
         IN IF p = 0 THEN [found |-> FALSE, val |-> <<>>]
            ELSE IF p > 0 /\ Halves(f, o) = h /\ Num(f, p) = Len(k) /\ Bytes(f, p + 8, Len(k)) = k
            THEN [found |-> TRUE, val |-> Bytes(f, p + 8 + Len(k), Num(f, p + 4))]
            ELSE Probe(f, k, h, tp, n, <<(at[1] + 1) % n, at[2] + 1>>)
Lookup(f, k) ==
    LET h == Hash(k)
        n == TableLen(f, Table(h))
    IN IF n = 0 THEN [found |-> FALSE, val |-> <<>>]
       ELSE Probe(f, k, h, TablePos(f, Table(h)), n, <<StartSlot(h, n), 0>>)

\* ---- why a file is not a database of these pairs; "" if it is ----
Malformed(f, pairs) ==
    IF Len(f) < 2048 THEN "shorter than its header"
    ELSE IF Eod(f) < 2048 THEN "no end of the records"
    ELSE LET rs == RecordsFrom(f, 2048)
             \* the slots in use, with their tables
             tabs == {t \in 0 .. 255 : TableLen(f, t) /= 0}
             sane == \A t \in 0 .. 255 :
                       /\ TableLen(f, t) >= 0 /\ TablePos(f, t) >= Eod(f)
                       /\ TablePos(f, t) + 8 * TableLen(f, t) <= Len(f)
         IN IF rs /= <<>> /\ rs[Len(rs)].pos = -1 THEN "records do not parse"
            ELSE IF [i \in DOMAIN rs |-> <<rs[i].key, rs[i].val>>] /= pairs THEN "other records than the pairs"
            ELSE IF ~sane THEN "a table outside the file"
            ELSE LET slots == UNION {{<<t, s>> : s \in {x \in 0 .. TableLen(f, t) - 1 :
                                       Num(f, TablePos(f, t) + 8 * x + 4) /= 0}} : t \in tabs}
                     off(x) == TablePos(f, x[1]) + 8 * x[2]
                     at(i) == {x \in slots : Num(f, off(x) + 4) = rs[i].pos}
                 IN IF Cardinality(slots) /= Len(rs) THEN "number of used slots"
                    ELSE IF \E i \in DOMAIN rs : LET h == Hash(rs[i].key) IN
                              ~\E x \in at(i) : x[1] = Table(h) /\ Halves(f, off(x)) = h
                    THEN "a record without its slot"
                    ELSE ""
=============================================================================
