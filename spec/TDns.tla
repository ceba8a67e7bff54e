-------------------------------- MODULE TDns --------------------------------
(* Validation of recorded histories of name lookups (C24).                   *)
EXTENDS Dns, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, timeout, stack
Trace == Traces[t]
Step == Trace.steps[i]
Empty == [timeout |-> "", stack |-> <<>>]
Fresh(k) == IF k > Len(Traces) THEN Empty ELSE [Empty EXCEPT !.timeout = Traces[k].default]
Init == t = 1 /\ i = 1 /\ timeout = Fresh(1).timeout /\ stack = <<>>
After(e) == CASE e.op = "set" -> [timeout |-> e.v, stack |-> stack]
              [] e.op = "begin" -> Begin(timeout, stack, e.kind, Trace.limit)
              [] e.op = "end" -> End(timeout, stack)
\* e.timeout: the process-wide default as seen right after the step; e.result: what came back
Why(e) ==
    IF e.timeout /= After(e).timeout
    THEN CASE e.op = "set" -> "the default is not what was set" [] e.op = "begin" -> "timeout during the lookup" [] OTHER -> "timeout after the lookup"
    ELSE IF e.op /= "end" THEN ""
    ELSE IF e.result \notin Results(e.kind, e.outcome) THEN "result of the lookup" ELSE ""
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ \E e \in {Step} : \E why \in {Why(e)} :
          /\ IF why = "" THEN TRUE
             ELSE PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why, want |-> After(e).timeout]))
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
          /\ timeout' = After(e).timeout /\ stack' = After(e).stack
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1 /\ timeout' = Fresh(t + 1).timeout /\ stack' = <<>>
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i, timeout, stack>>
View == <<t, i>>
=============================================================================
