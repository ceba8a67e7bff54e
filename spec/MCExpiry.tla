------------------------------ MODULE MCExpiry ------------------------------
(* An expiring corpus over time (C15): the pass with its due time, as it is  *)
(* designed, against what the property asks for. Times are ticks; a message  *)
(* has expired when it is older than Age (the limit is between two ticks).   *)
EXTENDS Integers, FiniteSets, TLC, Json
CONSTANTS NKeys, Age, MaxTime
VARIABLES now, stored, due, act
vars == <<now, stored, due, act>>
Keys == 1 .. NKeys
\* stored[k]: when k was stored, -1 if it is not there
InitSmall == now = 0 /\ stored = [k \in Keys |-> -1] /\ due = 0 /\ act = [op |-> "init", k |-> 0]
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<stored, due>> /\ act' = [op |-> "tick", k |-> 0]
Add == \E k \in Keys : /\ stored' = [stored EXCEPT ![k] = now] /\ UNCHANGED <<now, due>>
                       /\ act' = [op |-> "add", k |-> k]
Remove == \E k \in Keys : /\ stored[k] >= 0 /\ stored' = [stored EXCEPT ![k] = -1] /\ UNCHANGED <<now, due>>
                          /\ act' = [op |-> "remove", k |-> k]
Old(k) == stored[k] >= 0 /\ now - stored[k] > Age
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Pass == /\ act' = [op |-> "pass", k |-> 0] /\ UNCHANGED now
        /\ IF now < due THEN UNCHANGED <<stored, due>>
           ELSE /\ stored' = [k \in Keys |-> IF Old(k) THEN -1 ELSE stored[k]]
                /\ due' = Min({now + Age + 1} \cup {stored[k] + Age + 1 : k \in {x \in Keys : stored[x] >= 0 /\ ~Old(x)}})
Next == Tick \/ Add \/ Remove \/ Pass
Spec == InitSmall /\ [][Next]_vars
View == <<now, stored, due>>
\* Every pass, also one that is skipped, leaves no expired message behind and removes no other.
PassRemovesExactlyOld == [][act'.op = "pass" => \A k \in Keys : IF Old(k) THEN stored'[k] = -1 ELSE stored'[k] = stored[k]]_vars
Emit == PrintT(ToJson([init |-> (now = 0 /\ due = 0 /\ stored = [k \in Keys |-> -1]),
                       pre |-> <<now, stored, due>>, act |-> act', post |-> <<now', stored', due'>>]))
=============================================================================
