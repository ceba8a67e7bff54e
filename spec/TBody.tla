------------------------------- MODULE TBody -------------------------------
(* Validation of recorded results of the section strippers and the tokenizer *)
(* (C21, C22).                                                               *)
EXTENDS Body, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Trace == Traces[t]
Step == Trace.steps[i]

SetOf(s) == {s[j] : j \in DOMAIN s}
Times(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
SameBag(a, b) == a = b \/ (Len(a) = Len(b) /\ \A x \in SetOf(a) : Times(a, x) = Times(b, x))

\* An open section may or may not leave clues of its start mark.
Closed2(ss) == SelectSeq(ss, LAMBDA s : s.to /= 0)
WhyCrack(e) ==
    Let(Sections(e.kind, e.text, 1), LAMBDA ss :
       IF e.raised /= "" THEN "raised"
       ELSE IF e.rest /= KeepFrom(e.text, ss, 1) THEN "text that is kept"
       ELSE IF ~SameBag(e.tokens, CluesOf(e.kind, e.text, ss)) /\ ~SameBag(e.tokens, CluesOf(e.kind, e.text, Closed2(ss)))
       THEN "clues" ELSE "")

Is8bit(x) == Len(x) > 6 /\ SubSeq(x, 1, 6) = <<56, 98, 105, 116, 37, 58>>
Expected(parts) == Flat([j \in DOMAIN parts |-> BodyTokens(parts[j])])
Firm(s) == SelectSeq(s, LAMBDA x : ~Is8bit(x))
WhyBody(e) ==
    IF e.raised /= "" THEN "raised"
    ELSE Let(Expected(e.parts), LAMBDA x :
         IF SameBag(e.tokens, x) THEN ""
         ELSE IF (\E j \in DOMAIN e.parts : Unclear(e.parts[j])) /\ SameBag(Firm(e.tokens), Firm(x)) THEN ""
         ELSE "tokens")
Why(e) == IF e.op = "crack" THEN WhyCrack(e) ELSE WhyBody(e)
Want(e) == IF e.op = "crack" THEN [rest |-> Kept(e.kind, e.text), tokens |-> Clues(e.kind, e.text)]
           ELSE [rest |-> <<>>, tokens |-> Expected(e.parts)]

Init == t = 1 /\ i = 1
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    \* (bound by quantifiers, so that TLC evaluates them once)
    /\ \E e \in {Step} : \E why \in {Why(e)} :
          /\ IF why = "" THEN TRUE
             ELSE PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why, want |-> Want(e)]))
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i>>
View == <<t, i>>
=============================================================================
