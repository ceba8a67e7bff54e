----------------------------- MODULE MCDnsRace -----------------------------
(* Lookups by several threads at a time, each saving and restoring the one   *)
(* process-wide value: a restoring discipline that is right for nested       *)
(* lookups leaks the limit when lookups overlap without nesting. TLC finds   *)
(* that history; the property therefore speaks of nested lookups only.       *)
EXTENDS Integers
CONSTANTS Threads, Default, Limit
VARIABLES timeout, old, pc
vars == <<timeout, old, pc>>
Init == timeout = Default /\ old = [h \in Threads |-> Default] /\ pc = [h \in Threads |-> "idle"]
Save(h) == pc[h] = "idle" /\ old' = [old EXCEPT ![h] = timeout] /\ timeout' = Limit /\ pc' = [pc EXCEPT ![h] = "busy"]
Restore(h) == pc[h] = "busy" /\ timeout' = old[h] /\ pc' = [pc EXCEPT ![h] = "done"] /\ UNCHANGED old
Next == \E h \in Threads : Save(h) \/ Restore(h)
Spec == Init /\ [][Next]_vars
Restored == (\A h \in Threads : pc[h] /= "busy") => timeout = Default
=============================================================================
