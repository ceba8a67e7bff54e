------------------------------- MODULE Bayes -------------------------------
(* The counting rule of the classifier (C01, C02, C05).                      *)
(*                                                                           *)
(* A training state m is [ns, nh, wi]: the numbers of trained spam and ham   *)
(* messages and, for the tokens that have a record, the number of trained    *)
(* spam and ham messages that contain the token. Tokens are the numbers      *)
(* 1..999; the pair of adjacent tokens a, b is the token 1000*a+b.           *)
EXTENDS Naturals, Sequences, FiniteSets, Functions

None == [s |-> 0, h |-> 0]
Empty == [ns |-> 0, nh |-> 0, wi |-> [w \in {} |-> None]]

Cnt(m, w) == IF w \in DOMAIN m.wi THEN m.wi[w] ELSE None
Total(m, k) == IF k = "spam" THEN m.ns ELSE m.nh

Pair(a, b) == 1000 * a + b

\* The distinct tokens that a message (a sequence of tokens) trains on.
Expand(seq, bigrams) ==
    Range(seq) \cup
    (IF bigrams THEN {Pair(seq[i], seq[i + 1]) : i \in 1 .. Len(seq) - 1} ELSE {})

\* The same message learned n times.
Learn(m, ws, k, n) ==
    [ns |-> IF k = "spam" THEN m.ns + n ELSE m.ns,
     nh |-> IF k = "ham" THEN m.nh + n ELSE m.nh,
     wi |-> [w \in DOMAIN m.wi \cup ws |->
               LET c == Cnt(m, w) IN
               IF w \notin ws THEN c
               ELSE IF k = "spam" THEN [c EXCEPT !.s = @ + n] ELSE [c EXCEPT !.h = @ + n]]]

CanUnlearn(m, k, n) == Total(m, k) >= n

Less(x, n) == IF x >= n THEN x - n ELSE 0

Unlearn(m, ws, k, n) ==
    LET after(w) == LET c == m.wi[w] IN
                    IF w \notin ws THEN c
                    ELSE IF k = "spam" THEN [c EXCEPT !.s = Less(@, n)]
                    ELSE [c EXCEPT !.h = Less(@, n)]
    IN [ns |-> IF k = "spam" THEN m.ns - n ELSE m.ns,
        nh |-> IF k = "ham" THEN m.nh - n ELSE m.nh,
        wi |-> [w \in {v \in DOMAIN m.wi : after(v) /= None} |-> after(w)]]

\* What can be observed of a training state.
Recs(m) == {<<w, m.wi[w].s, m.wi[w].h>> : w \in DOMAIN m.wi}
Obs(m) == [ns |-> m.ns, nh |-> m.nh, recs |-> Recs(m)]

NoEmptyRecords(m) == \A w \in DOMAIN m.wi : m.wi[w] /= None
\* Every token count is at most the total of its kind.
Consistent(m) == \A w \in DOMAIN m.wi : m.wi[w].s <= m.ns /\ m.wi[w].h <= m.nh
=============================================================================
