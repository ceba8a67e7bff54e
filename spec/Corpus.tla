------------------------------- MODULE Corpus -------------------------------
(* Corpora of messages (C11, C12, C13, C15, C26).                            *)
(*                                                                           *)
(* The entries of a corpus are a sequence of [k, o, at]: key, message object *)
(* (or content) and time of storing, in the order in which the keys were     *)
(* first added. An in-memory corpus has a limit (0: none). A file corpus has *)
(* none: its entries are the files of its directory, whatever its memory     *)
(* cache holds; those whose name matches the filter are visible.             *)
EXTENDS Integers, Sequences, FiniteSets

KeysOf(es) == {es[j].k : j \in DOMAIN es}
EntryOf(es, k) == es[CHOOSE j \in DOMAIN es : es[j].k = k]
Pairs(es) == {<<es[j].k, es[j].o>> : j \in DOMAIN es}

Put(es, k, o, at, limit) ==
    IF k \in KeysOf(es)
    THEN [j \in DOMAIN es |-> IF es[j].k = k THEN [k |-> k, o |-> o, at |-> at] ELSE es[j]]
    ELSE LET x == Append(es, [k |-> k, o |-> o, at |-> at])
         IN IF limit > 0 /\ Len(x) > limit THEN Tail(x) ELSE x
Del(es, k) == SelectSeq(es, LAMBDA x : x.k /= k)

\* ---- name filters: sequences of [t, c, cs, neg] with t = any, one, lit, set ----
RECURSIVE Match(_, _)
Match(p, s) ==
    IF p = <<>> THEN s = <<>>
    ELSE LET h == p[1] IN
         IF h.t = "any" THEN Match(Tail(p), s) \/ (s /= <<>> /\ Match(p, Tail(s)))
         ELSE /\ s /= <<>>
              /\ CASE h.t = "one" -> TRUE
                   [] h.t = "lit" -> s[1] = h.c
                   [] h.t = "set" -> (\E j \in DOMAIN h.cs : h.cs[j] = s[1]) /= (h.neg = 1)
              /\ Match(Tail(p), Tail(s))
\* ---- names that stay in the directory: no slash, no NUL, not empty, not . or .. ----
PlainName(s) == /\ s /= <<>> /\ s /= <<46>> /\ s /= <<46, 46>>
                /\ \A j \in DOMAIN s : s[j] /= 47 /\ s[j] /= 0
=============================================================================
