------------------------------- MODULE TKeep -------------------------------
(* Validation of recorded histories of messages that are kept (C29).          *)
EXTENDS Keep, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, st, toks, seen
Trace == Traces[t]
Step == Trace.steps[i]
Begin == [m \in 1 .. 2 |-> Fresh]
Init == t = 1 /\ i = 1 /\ st = Begin /\ toks = <<"", "">> /\ seen = {}
Nothing == <<<<0, 0>>, <<0, 0>>>>
Near(a, b) == a - b \in {-1, 0, 1}
\* seen: what was seen of every training: [tr, state] and [tr, m, score].
Why(e, new) ==
    IF ~ Can(st[e.m], e) THEN "the history is not one of the specification"
    ELSE IF e.raised /= "" THEN "raised"
    ELSE IF new[e.m].marked = 0 /\ toks[e.m] /= "" /\ e.tokens /= toks[e.m] THEN "the message has other tokens than before"
    ELSE IF Training(new) = Nothing /\ e.state /= "empty" THEN "the classifier knows something without any training"
    ELSE IF \E x \in seen : x.m = 0 /\ x.tr = Training(new) /\ x.state /= e.state THEN "the classifier has another state after the same training"
    ELSE IF new[e.m].marked = 0 /\ \E x \in seen : x.m = e.m /\ x.tr = Training(new) /\ ~ Near(x.score, e.score)
         THEN "the message has another score after the same training"
    ELSE ""
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ \E e \in {Step} : \E new \in {[st EXCEPT ![e.m] = After(st[e.m], e)]} : \E why \in {Why(e, new)} :
         /\ IF why = "" THEN TRUE ELSE PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why]))
         /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
         /\ st' = new
         /\ toks' = IF new[e.m].marked = 0 /\ toks[e.m] = "" THEN [toks EXCEPT ![e.m] = e.tokens] ELSE toks
         /\ seen' = seen \cup {[tr |-> Training(new), m |-> 0, state |-> e.state, score |-> 0]}
                         \cup (IF new[e.m].marked = 0 THEN {[tr |-> Training(new), m |-> e.m, state |-> "", score |-> e.score]} ELSE {})
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1 /\ st' = Begin /\ toks' = <<"", "">> /\ seen' = {}
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i, st, toks, seen>>
View == <<t, i>>
=============================================================================
