------------------------------- MODULE MCCdb -------------------------------
(* The hash tables of a constant database as a refinement of a sequence of   *)
(* pairs, for every way in which a few keys can collide: completely, in      *)
(* table and slot, in the table only, not at all. Every state is a database  *)
(* that the harness lets the real code write and read.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, MaxPairs
VARIABLES shape, pairs
\* shape[k] = <<table, slot, full>>; equal triples have equal hashes.
Shapes == [Keys -> {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<1, 0, 0>>}]
Init == shape \in Shapes /\ pairs = <<>>
Next == /\ Len(pairs) < MaxPairs
        /\ \E k \in Keys : pairs' = Append(pairs, k)
        /\ UNCHANGED shape
Spec == Init /\ [][Next]_<<shape, pairs>>

Entries(t) == SelectSeq([i \in DOMAIN pairs |-> i], LAMBDA i : shape[pairs[i]][1] = t)
Size(t) == 2 * Len(Entries(t))
RECURSIVE FreeSlot(_, _)
FreeSlot(tab, s) == IF tab[s] = 0 THEN s ELSE FreeSlot(tab, (s + 1) % Cardinality(DOMAIN tab))
RECURSIVE Fill(_, _, _)
Fill(tab, es, n) ==
    IF es = <<>> THEN tab
    ELSE LET s == FreeSlot(tab, shape[pairs[es[1]]][2] % n)
         IN Fill([tab EXCEPT ![s] = es[1]], Tail(es), n)
Tab(t) == Fill([s \in 0 .. Size(t) - 1 |-> 0], Entries(t), Size(t))
RECURSIVE Search(_, _, _, _, _)
Search(tab, n, k, s, seen) ==
    IF seen = n \/ tab[s] = 0 THEN 0
    ELSE IF pairs[tab[s]] = k THEN tab[s]
    ELSE Search(tab, n, k, (s + 1) % n, seen + 1)
Get(k) == LET t == shape[k][1]
              n == Size(t)
          IN IF n = 0 THEN 0 ELSE Search(Tab(t), n, k, shape[k][2] % n, 0)
FirstAt(k) == IF \E i \in DOMAIN pairs : pairs[i] = k
              THEN CHOOSE i \in DOMAIN pairs : pairs[i] = k /\ \A j \in 1 .. i - 1 : pairs[j] /= k ELSE 0
FindsFirst == \A k \in Keys : Get(k) = FirstAt(k)
\* Going on after each occurrence finds all of them in the order given.
RECURSIVE Rest(_, _, _, _, _)
Rest(tab, n, k, s, seen) ==
    IF seen = n \/ tab[s] = 0 THEN <<>>
    ELSE (IF pairs[tab[s]] = k THEN <<tab[s]>> ELSE <<>>) \o Rest(tab, n, k, (s + 1) % n, seen + 1)
FoundInTurn(k) == LET n == Size(shape[k][1])
                  IN IF n = 0 THEN <<>> ELSE Rest(Tab(shape[k][1]), n, k, shape[k][2] % n, 0)
FindsAll == \A k \in Keys : FoundInTurn(k) = SelectSeq([i \in DOMAIN pairs |-> i], LAMBDA i : pairs[i] = k)
Emit == (Len(pairs') = MaxPairs \/ Len(pairs') <= 1) => PrintT(ToJson([shape |-> shape, pairs |-> pairs']))
=============================================================================
