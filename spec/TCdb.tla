-------------------------------- MODULE TCdb --------------------------------
(* Validation of written files and of the answers of the real reader.        *)
EXTENDS Cdb, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Trace == Traces[t]
Step == Trace.steps[i]
Pairs == Trace.pairs
Why(e) ==
    IF e.raised /= "" THEN "raised"
    ELSE CASE e.op = "file" ->
                LET bad == Malformed(e.bytes, Pairs)
                    ks == {Pairs[j][1] : j \in DOMAIN Pairs}
                IN IF bad /= "" THEN bad
                   ELSE IF \E k \in ks : Lookup(e.bytes, k) /= [found |-> TRUE, val |-> First(Pairs, k)]
                   THEN "a key is not found in the file"
                   ELSE ""
           [] e.op = "items" -> IF e.res = Pairs THEN "" ELSE "iteration over the pairs"
           [] e.op = "keys" -> IF e.res = [j \in DOMAIN Pairs |-> Pairs[j][1]] THEN "" ELSE "iteration over the keys"
           [] e.op = "values" -> IF e.res = [j \in DOMAIN Pairs |-> Pairs[j][2]] THEN "" ELSE "iteration over the values"
           [] e.op = "get" ->
                IF Has(Pairs, e.key)
                THEN IF e.found = 1 /\ e.res = First(Pairs, e.key) THEN "" ELSE "lookup of a key"
                ELSE IF e.found = 0 THEN "" ELSE "lookup of an absent key"
           [] e.op = "all" -> IF e.res = All(Pairs, e.key) THEN "" ELSE "the values of a key, one after another"
           [] e.op = "create" -> ""
Init == t = 1 /\ i = 1
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ LET why == Why(Step)
       IN /\ IF why = "" THEN TRUE ELSE PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why]))
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
