------------------------------- MODULE Shelve -------------------------------
(* How a shelved classifier writes (C06, C07): the totals and the words with *)
(* at most one occurrence go to the database at once, the others when the    *)
(* classifier is saved, or when anything is unlearned. mem is the words at   *)
(* hand, changed and deleted are those the database does not know yet.       *)
(* The model is checked against the training state m: reading gives m at     *)
(* every moment (C06), and the database alone, if the process ended now, is  *)
(* one that OneOfSince allows (C07); right after saving it is m.             *)
(* Modes other than "code" are defective designs that TLC has to reject.     *)
EXTENDS Since, TLC
CONSTANTS Words, MaxTotal, Mode
VARIABLES m, bag, db, mem, changed, deleted, saved, seen, fresh
vars == <<m, bag, db, mem, changed, deleted, saved, seen, fresh>>

Kinds == {"spam", "ham"}
Msgs == SUBSET Words
Count(ms, k) == IF <<ms, k>> \in DOMAIN bag THEN bag[<<ms, k>>] ELSE 0
Ledger(ms, k, n) == LET d == DOMAIN bag \cup {<<ms, k>>}
                        f == [x \in d |-> IF x = <<ms, k>> THEN n ELSE bag[x]]
                    IN [x \in {y \in d : f[y] > 0} |-> f[x]]
Init == /\ m = Empty /\ bag = [x \in {} |-> 0] /\ db = Empty /\ mem = [w \in {} |-> None]
        /\ changed = {} /\ deleted = {} /\ saved = Empty /\ seen = SeenOf(Empty) /\ fresh = TRUE

Without(f, ws) == [w \in DOMAIN f \ ws |-> f[w]]
With(f, ws, g(_)) == [w \in DOMAIN f \cup ws |-> IF w \in ws THEN g(w) ELSE f[w]]
\* What a reader of the classifier gets.
Read(w) == IF w \in DOMAIN mem THEN mem[w] ELSE IF w \in deleted THEN None ELSE Cnt(db, w)

\* The words of a message after training on it: which are written at once, put off, removed.
Next1(w, k, up) == LET c == Read(w) IN
    IF k = "spam" THEN [c EXCEPT !.s = IF up THEN @ + 1 ELSE Less(@, 1)]
    ELSE [c EXCEPT !.h = IF up THEN @ + 1 ELSE Less(@, 1)]
Known(ms, up) == IF up THEN ms ELSE {w \in ms : Read(w) /= None}
Gone(ms, k, up) == {w \in Known(ms, up) : Next1(w, k, up) = None}
Once(ms, k, up) == {w \in Known(ms, up) : Next1(w, k, up).s + Next1(w, k, up).h = 1}
Often(ms, k, up) == Known(ms, up) \ (Gone(ms, k, up) \cup Once(ms, k, up))
Totals(x, k, up) == LET n == IF up THEN 1 ELSE -1 IN
    IF k = "spam" THEN [x EXCEPT !.ns = @ + n] ELSE [x EXCEPT !.nh = @ + n]
\* All words that were put off.
Flush(d, mm, ch, de) == [d EXCEPT !.wi = Without(With(@, ch, LAMBDA w : mm[w]), IF Mode = "nodelete" THEN {} ELSE de)]

Train(ms, k, up) ==
    LET gone == Gone(ms, k, up)
        once == Once(ms, k, up)
        often == Often(ms, k, up)
        d == [db EXCEPT !.wi = With(@, once, LAMBDA w : Next1(w, k, up))]
        ch == ((changed \ once) \cup often) \ gone
        de == (deleted \ once) \cup gone
        mm == With(Without(mem, IF Mode = "memstays" THEN gone ELSE gone \cup once), often, LAMBDA w : Next1(w, k, up))
        flush == ~up /\ Mode /= "noflush"
        d2 == IF flush THEN Flush(d, mm, ch, de) ELSE d
    IN /\ db' = IF Mode = "statelater" THEN d2 ELSE Totals(d2, k, up)
       /\ mem' = mm
       /\ changed' = IF flush THEN {} ELSE ch
       /\ deleted' = IF flush THEN {} ELSE de

DoLearn == \E ms \in Msgs, k \in Kinds :
    /\ Total(m, k) < MaxTotal
    /\ m' = Learn(m, ms, k, 1) /\ bag' = Ledger(ms, k, Count(ms, k) + 1)
    /\ Train(ms, k, TRUE) /\ seen' = See(seen, m') /\ fresh' = FALSE /\ UNCHANGED saved
DoUnlearn == \E ms \in Msgs, k \in Kinds :
    /\ Count(ms, k) > 0
    /\ m' = Unlearn(m, ms, k, 1) /\ bag' = Ledger(ms, k, Count(ms, k) - 1)
    /\ Train(ms, k, FALSE) /\ seen' = See(seen, m') /\ fresh' = FALSE /\ UNCHANGED saved
\* A word is looked up and from now on at hand.
Lookup == \E w \in Words \ DOMAIN mem :
    /\ w \in DOMAIN db.wi /\ w \notin deleted
    /\ mem' = With(mem, {w}, LAMBDA v : db.wi[v])
    /\ UNCHANGED <<m, bag, db, changed, deleted, saved, seen, fresh>>
Save == /\ db' = LET d == Flush(db, mem, changed, deleted) IN [d EXCEPT !.ns = m.ns, !.nh = m.nh]
        /\ changed' = {} /\ deleted' = {}
        /\ saved' = m /\ seen' = SeenOf(m) /\ fresh' = TRUE /\ UNCHANGED <<m, bag, mem>>
\* The process ends, or the classifier is loaded again, just after a save: what was trained is known.
Reload == /\ fresh /\ mem' = [w \in {} |-> None]
          /\ changed' = {} /\ deleted' = {} /\ UNCHANGED <<m, bag, db, saved, seen, fresh>>
Next == DoLearn \/ DoUnlearn \/ Lookup \/ Save \/ Reload
Spec == Init /\ [][Next]_vars

TypeOK == changed \subseteq DOMAIN mem /\ changed \cap deleted = {} /\ DOMAIN mem \cap deleted = {}
\* C06
ReadsAreTrue == \A w \in Words : Read(w) = Cnt(m, w)
KeysAreTrue == {w \in Words : Read(w) /= None} = DOMAIN m.wi
SavedIsFound == fresh => Obs(db) = Obs(m)
\* C07: the process ends now.
EndIsAllowed == OneOfSince(db, saved, seen)
=============================================================================
