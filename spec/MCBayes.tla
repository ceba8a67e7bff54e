------------------------------ MODULE MCBayes ------------------------------
(* Every history of learn and unlearn calls, also failing ones, over a few   *)
(* tokens. The ledger counts the learned and not unlearned messages.         *)
EXTENDS Bayes, TLC, Json
CONSTANTS Words, MaxTotal, Bigrams, Free, MaxLen
VARIABLES m, bag, act

\* Messages: sequences without repetition if only the set matters.
Msgs == IF Bigrams THEN UNION {[1 .. n -> Words] : n \in 0 .. MaxLen}
        ELSE UNION {{s \in [1 .. n -> Words] : \A i \in 1 .. n - 1 : s[i] < s[i + 1]} : n \in 0 .. MaxLen}
Kinds == {"spam", "ham"}
Count(ms, k) == IF <<ms, k>> \in DOMAIN bag THEN bag[<<ms, k>>] ELSE 0
Ledger(ms, k, n) == LET d == DOMAIN bag \cup {<<ms, k>>}
                        f == [x \in d |-> IF x = <<ms, k>> THEN n ELSE bag[x]]
                    IN [x \in {y \in d : f[y] > 0} |-> f[x]]
Init == m = Empty /\ bag = [x \in {} |-> 0] /\ act = [op |-> "init", ms |-> <<>>, k |-> "", bad |-> FALSE]

DoLearn == \E ms \in Msgs, k \in Kinds :
    /\ Total(m, k) < MaxTotal
    \* With unmatched unlearning the counts can exceed the totals.
    /\ \A w \in Words : Cnt(m, w).s <= MaxTotal /\ Cnt(m, w).h <= MaxTotal
    /\ m' = Learn(m, Expand(ms, Bigrams), k, 1)
    /\ bag' = IF Free THEN bag ELSE Ledger(ms, k, Count(ms, k) + 1)
    /\ act' = [op |-> "learn", ms |-> ms, k |-> k, bad |-> FALSE]
DoUnlearn == \E ms \in Msgs, k \in Kinds :
    /\ IF Free THEN CanUnlearn(m, k, 1) ELSE Count(ms, k) > 0
    /\ m' = Unlearn(m, Expand(ms, Bigrams), k, 1)
    /\ bag' = IF Free THEN bag ELSE Ledger(ms, k, Count(ms, k) - 1)
    /\ act' = [op |-> "unlearn", ms |-> ms, k |-> k, bad |-> FALSE]
\* Nothing of that kind is left to unlearn.
Rejected == \E ms \in Msgs, k \in Kinds :
    /\ ~CanUnlearn(m, k, 1)
    /\ UNCHANGED <<m, bag>>
    /\ act' = [op |-> "unlearn", ms |-> ms, k |-> k, bad |-> TRUE]
\* The source of tokens fails after the tokens of ms.
Failed == \E ms \in Msgs, k \in Kinds, op \in {"learn", "unlearn"} :
    /\ UNCHANGED <<m, bag>>
    /\ act' = [op |-> op \o "fail", ms |-> ms, k |-> k, bad |-> TRUE]
Next == DoLearn \/ DoUnlearn \/ Rejected \/ Failed
Spec == Init /\ [][Next]_<<m, bag, act>>
View == <<m, bag>>

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)

\* C01: the counts are those of the messages in the ledger.
CountsFollowLedger ==
    ~Free =>
    /\ \A k \in Kinds : Total(m, k) = SumOver({x \in DOMAIN bag : x[2] = k}, bag)
    /\ \A w \in UNION {Expand(ms, Bigrams) : ms \in Msgs} :
          /\ Cnt(m, w).s = SumOver({x \in DOMAIN bag : x[2] = "spam" /\ w \in Expand(x[1], Bigrams)}, bag)
          /\ Cnt(m, w).h = SumOver({x \in DOMAIN bag : x[2] = "ham" /\ w \in Expand(x[1], Bigrams)}, bag)
    /\ Consistent(m)
NoEmpty == NoEmptyRecords(m)
\* C02: a call that raises changes nothing.
FailuresChangeNothing == [][act'.bad => UNCHANGED <<m, bag>>]_<<m, bag, act>>
\* C01: unlearning what was learned restores the counts.
UndoRestores == ~Free => \A ms \in Msgs, k \in Kinds :
    Unlearn(Learn(m, Expand(ms, Bigrams), k, 1), Expand(ms, Bigrams), k, 1) = m

Emit == PrintT(ToJson([init |-> (m = Empty /\ bag = [x \in {} |-> 0]),
                       pre |-> <<Recs(m), m.ns, m.nh, {<<x, bag[x]>> : x \in DOMAIN bag}>>, act |-> act',
                       post |-> <<Recs(m'), m'.ns, m'.nh, {<<x, bag'[x]>> : x \in DOMAIN bag'}>>,
                       obs |-> Obs(m')]))
=============================================================================
