-------------------------------- MODULE TTok --------------------------------
(* Validation of recorded readings of tokens (C20). *)
EXTENDS Tok, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, seen
Trace == Traces[t]
Step == Trace.steps[i]
Fresh(k) == IF k > Len(Traces) THEN <<>> ELSE [j \in 1 .. Traces[k].messages |-> Unknown]
Init == t = 1 /\ i = 1 /\ seen = Fresh(1)
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ LET why == Why(seen, Step)
       IN /\ IF why = "" THEN TRUE ELSE PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why]))
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
          /\ seen' = Learn(seen, Step)
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1 /\ seen' = Fresh(t + 1)
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i, seen>>
View == <<t, i>>
=============================================================================
