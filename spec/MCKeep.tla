------------------------------- MODULE MCKeep -------------------------------
(* Bounded model of Keep with a classifier that counts words; emits every     *)
(* transition for replay. With Folds = TRUE writing a message changes it, as  *)
(* it did before it was repaired, and the invariants fail.                    *)
EXTENDS Keep, FiniteSets, TLC, Json
CONSTANTS Limit, Folds
VARIABLES st, clf, words
vars == <<st, clf, words>>
Ms == {1, 2}
\* The words of the messages, and those of the object at hand and the stored one.
F == <<{"a", "b"}, {"b", "c"}>>
W == UNION {F[m] : m \in Ms} \cup {"folded"}
Empty == [nh |-> 0, ns |-> 0, h |-> [w \in W |-> 0], s |-> [w \in W |-> 0]]
Learn(c, ws, k, d) ==
    IF k = 1 THEN [c EXCEPT !.nh = @ + d, !.h = [w \in W |-> IF w \in ws THEN c.h[w] + d ELSE c.h[w]]]
    ELSE [c EXCEPT !.ns = @ + d, !.s = [w \in W |-> IF w \in ws THEN c.s[w] + d ELSE c.s[w]]]
Written(ws) == IF Folds THEN {IF w = "a" THEN "folded" ELSE w : w \in ws} ELSE ws
Init == st = [m \in Ms |-> Fresh] /\ clf = Empty /\ words = [m \in Ms |-> F[m]]
Acts == [op : {"read", "pass", "mark", "clean", "get", "take", "score"}, m : Ms, n : {0}]
        \cup [op : {"put"}, m : Ms, n : {1, 2, 3}]
        \cup [op : {"learn", "unlearn"}, m : Ms, n : {1, 2}]
        \cup [op : {"restart"}, m : {1}, n : {0}]
Do(e) ==
    LET x == st[e.m]
        ws == words[e.m]
    IN /\ Can(x, e)
       /\ e.op = "learn" => x.h + x.s < Limit
       /\ st' = [st EXCEPT ![e.m] = After(x, e)]
       /\ words' = IF e.op \in {"pass", "put", "get", "take"} THEN [words EXCEPT ![e.m] = Written(ws)]
                   ELSE IF e.op = "read" THEN [words EXCEPT ![e.m] = F[e.m]] ELSE words
       /\ clf' = CASE e.op = "learn" -> Learn(clf, ws, e.n, 1)
                   [] e.op = "unlearn" -> Learn(clf, ws, e.n, -1)
                   [] e.op = "put" /\ e.n < 3 -> Learn(clf, ws, e.n, 1)
                   [] e.op = "take" /\ x.where < 3 -> Learn(clf, words'[e.m], x.where, -1)
                   [] OTHER -> clf
       /\ PrintT(ToJson([pre |-> st, act |-> e, post |-> st', init |-> (st = [m \in Ms |-> Fresh])]))
Next == \E e \in Acts : Do(e)
Spec == Init /\ [][Next]_vars
\* The classifier is what the training gives, whatever happened to the messages.
Sum(f) == f[1] + f[2]
Same == LET tr == Training(st) IN
    /\ clf.nh = Sum([m \in Ms |-> tr[m][1]]) /\ clf.ns = Sum([m \in Ms |-> tr[m][2]])
    /\ \A w \in W : /\ clf.h[w] = Sum([m \in Ms |-> IF w \in F[m] THEN tr[m][1] ELSE 0])
                    /\ clf.s[w] = Sum([m \in Ms |-> IF w \in F[m] THEN tr[m][2] ELSE 0])
MarksStayOut == \A m \in Ms : st[m].where \in {1, 2} => st[m].stored = 0
=============================================================================
