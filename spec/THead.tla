------------------------------- MODULE THead -------------------------------
(* Validation of recorded tokens of header lines (C27).                      *)
EXTENDS Head, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Trace == Traces[t]
Step == Trace.steps[i]

Judge(e) ==
    Let(Demands(e.m), LAMBDA ds :
    Let(SetOf(e.tokens), LAMBDA got :
        IF e.raised /= "" THEN [why |-> "raised", missing |-> {}, extra |-> {}]
        ELSE Let(Missing(got, ds), LAMBDA mi :
             Let(Extra(got, ds, Optional(e.m)), LAMBDA ex :
                 [why |-> IF mi /= {} THEN "missing tokens" ELSE IF ex /= {} THEN "unexpected tokens" ELSE "", missing |-> mi, extra |-> ex]))))

Init == t = 1 /\ i = 1
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ \E e \in {Step} : \E r \in {Judge(e)} :
          /\ IF r.why = "" THEN TRUE
             ELSE PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> r.why, missing |-> r.missing, extra |-> r.extra]))
          /\ i' = IF r.why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i>>
View == <<t, i>>
=============================================================================
