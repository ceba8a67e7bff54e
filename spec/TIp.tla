-------------------------------- MODULE TIp --------------------------------
(* Validation of recorded networks and clues of addresses (C25).            *)
EXTENDS Ip, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Trace == Traces[t]
Step == Trace.steps[i]
Want(e) == IF e.op = "clues" THEN ClueTexts(e.prefix, e.addr)
           ELSE Subnets(e.addr, IF e.default = 1 THEN DefaultLengths ELSE e.lengths)
Why(e) == IF e.raised /= "" THEN "raised"
          ELSE IF Len(e.result) /= Len(Want(e)) THEN "number of networks"
          ELSE IF e.result /= Want(e) THEN "networks" ELSE ""
Init == t = 1 /\ i = 1
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ \E e \in {Step} : \E why \in {Why(e)} :
          /\ IF why = "" THEN TRUE
             ELSE PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why, want |-> Want(e)]))
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i>>
View == <<t, i>>
=============================================================================
