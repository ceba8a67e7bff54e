-------------------------------- MODULE TSafe --------------------------------
(* C08: what is found in the file at every line that runs while a value is   *)
(* written, and after the writer ended, failed or was killed at that line.   *)
(* Values are numbers; 0: no file, -1: anything that is no complete value.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, old, new, st
\* st: "idle" (the file is old), "writing", "ended" (new), "unknown" (either)
Trace == Traces[t]
Step == Trace.steps[i]
Allowed == CASE st = "idle" -> {old} [] st = "ended" -> {new} [] OTHER -> {old, new}
\* C09: opening a pickle-backed classifier. The database that was written has
\* learned {a, b} as spam and twice {b, c} as ham.
Written == <<<<"a", 1, 0>>, <<"b", 1, 2>>, <<"c", 0, 2>>>>
WhyOpen(e) ==
    IF e.file /= "same" THEN "opening changed the file"
    ELSE IF e.cond = "absent" THEN
        IF e.raised /= "" THEN "raised" ELSE IF e.ns /= 0 \/ e.nh /= 0 \/ e.words /= <<>> THEN "not empty" ELSE ""
    ELSE IF e.cond = "good" THEN
        IF e.raised /= "" THEN "raised" ELSE IF e.ns /= 1 \/ e.nh /= 2 \/ e.words /= Written THEN "not what was saved" ELSE ""
    ELSE IF e.raised = "" THEN "a database that cannot be read is presented as another one"
    ELSE ""

Why(e) ==
    CASE e.op = "open" -> WhyOpen(e)
      [] e.op = "see" -> IF e.val \in Allowed THEN ""
                         ELSE IF e.val = -1 THEN "the file holds a partial value"
                         ELSE IF st = "idle" THEN "the previous value is not in place"
                         ELSE IF st = "ended" THEN "the new value is not in place"
                         ELSE "the file holds another value"
      [] e.op = "end" -> IF e.raised /= "" /\ e.must = 0 THEN "raised"
                         ELSE IF e.raised = "" /\ e.must = 1 THEN "should have raised" ELSE ""
      [] OTHER -> ""
Init == t = 1 /\ i = 1 /\ old = 0 /\ new = 0 /\ st = "idle"
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ LET e == Step
           why == Why(e)
       IN /\ IF why = "" THEN TRUE ELSE PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why]))
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
          /\ CASE e.op = "reset" -> old' = e.val /\ new' = e.val /\ st' = "idle"
               [] e.op = "begin" -> new' = e.val /\ st' = "writing" /\ old' = old
               [] e.op = "end" -> /\ st' = IF e.raised = "" THEN "ended" ELSE "idle"
                                  /\ UNCHANGED <<old, new>>
               \* interrupted from outside or killed: either value, but no longer changing
               [] e.op = "crash" -> st' = "unknown" /\ UNCHANGED <<old, new>>
               \* once the new value is there, it stays
               [] e.op = "see" -> /\ old' = IF e.val = new THEN new ELSE old
                                  /\ UNCHANGED <<new, st>>
               [] OTHER -> UNCHANGED <<old, new, st>>
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1 /\ old' = 0 /\ new' = 0 /\ st' = "idle"
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i, old, new, st>>
=============================================================================
