------------------------------ MODULE MCStore ------------------------------
(* Histories of training, saving, reloading and abrupt ends of a persistent  *)
(* classifier (C06, C07). The database holds the state of the last save;     *)
(* what a shelved database holds after an abrupt end is nondeterministic and *)
(* described by Since!OneOfSince and Shelve.tla.                             *)
EXTENDS Bayes, TLC, Json
CONSTANTS Words, MaxTotal, Lossy
VARIABLES m, bag, saved, sbag, act

Msgs == UNION {{s \in [1 .. n -> Words] : \A i \in 1 .. n - 1 : s[i] < s[i + 1]} : n \in 0 .. 2}
Kinds == {"spam", "ham"}
Count(ms, k) == IF <<ms, k>> \in DOMAIN bag THEN bag[<<ms, k>>] ELSE 0
Ledger(ms, k, n) == LET d == DOMAIN bag \cup {<<ms, k>>}
                        f == [x \in d |-> IF x = <<ms, k>> THEN n ELSE bag[x]]
                    IN [x \in {y \in d : f[y] > 0} |-> f[x]]
NoBag == [x \in {} |-> 0]
A(op, ms, k) == [op |-> op, ms |-> ms, k |-> k]
Init == m = Empty /\ bag = NoBag /\ saved = Empty /\ sbag = NoBag /\ act = A("init", <<>>, "")

DoLearn == \E ms \in Msgs, k \in Kinds :
    /\ Total(m, k) < MaxTotal
    /\ m' = Learn(m, Range(ms), k, 1) /\ bag' = Ledger(ms, k, Count(ms, k) + 1)
    /\ act' = A("learn", ms, k) /\ UNCHANGED <<saved, sbag>>
DoUnlearn == \E ms \in Msgs, k \in Kinds :
    /\ Count(ms, k) > 0
    /\ m' = Unlearn(m, Range(ms), k, 1) /\ bag' = Ledger(ms, k, Count(ms, k) - 1)
    /\ act' = A("unlearn", ms, k) /\ UNCHANGED <<saved, sbag>>
Rejected == \E ms \in {<<>>, <<1, 2>>}, k \in Kinds :
    /\ ~CanUnlearn(m, k, 1)
    /\ UNCHANGED <<m, bag, saved, sbag>> /\ act' = A("unlearn", ms, k)
Failed == \E ms \in {<<>>, <<1>>, <<1, 2>>}, k \in Kinds, op \in {"learnfail", "unlearnfail"} :
    /\ UNCHANGED <<m, bag, saved, sbag>> /\ act' = A(op, ms, k)
Save == /\ saved' = m /\ sbag' = bag /\ act' = A("store", <<>>, "") /\ UNCHANGED <<m, bag>>
\* Everything that makes the state of the database that of the classifier.
Back == \E op \in {"load", "reopen", "drop", "kill", "gone"} :
    /\ Lossy \/ (m = saved /\ bag = sbag /\ act.op = "store")
    /\ m' = saved /\ bag' = sbag /\ act' = A(op, <<>>, "") /\ UNCHANGED <<saved, sbag>>
Next == DoLearn \/ DoUnlearn \/ Rejected \/ Failed \/ Save \/ Back
vars == <<m, bag, saved, sbag, act>>
Spec == Init /\ [][Next]_vars
\* Without Lossy it matters whether the last step was a save.
View == <<m, bag, saved, sbag, IF Lossy THEN FALSE ELSE act.op = "store">>

Inv == Consistent(m) /\ Consistent(saved) /\ NoEmptyRecords(m) /\ NoEmptyRecords(saved)
\* C06: only saving changes what reopening finds, and reopening finds exactly that.
SavedChangesOnlyBySaving == [][saved' /= saved => act'.op = "store"]_vars
ReopenFindsSaved == [][act'.op \in {"load", "reopen", "drop", "kill", "gone"} => m' = saved]_vars

S(x) == <<Recs(x), x.ns, x.nh>>
B(b) == {<<x, b[x]>> : x \in DOMAIN b}
Clean(a) == IF Lossy THEN FALSE ELSE a.op = "store"
Emit == PrintT(ToJson([init |-> (act.op = "init" /\ m = Empty /\ saved = Empty /\ bag = NoBag),
                       pre |-> <<S(m), B(bag), S(saved), B(sbag), Clean(act)>>, act |-> act',
                       post |-> <<S(m'), B(bag'), S(saved'), B(sbag'), Clean(act')>>]))
=============================================================================
