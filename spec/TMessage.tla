------------------------------ MODULE TMessage ------------------------------
(* Validation of recorded histories of messages. The state of a trace is the *)
(* message as last observed.                                                 *)
EXTENDS Message, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, m, base
Trace == Traces[t]
Step == Trace.steps[i]
Prop == Trace.prop

Same(a, b) == a.id = b.id /\ a.cls = b.cls /\ a.mark = b.mark /\ a.hdrs = b.hdrs /\ a.body = b.body
SetOf(s) == {s[j] : j \in DOMAIN s}

\* ---- adding (C16) ----
Named(e, l) == [j \in DOMAIN Values(e.obs.hdrs, l) |-> Values(e.obs.hdrs, l)[j]]
Plus(e, l) == LET a == Values(m.hdrs, l)
                  b == Values(e.obs.hdrs, l)
              IN IF Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a THEN <<b[Len(b)]>> ELSE <<>>
Kept(e, l) == Values(e.obs.hdrs, l) = Values(m.hdrs, l)
WhyAdd(e) ==
    LET c == IF e.op = "notate" THEN m.cls ELSE ClassOf(e.pk, e.pf)
        o == e.obs
        marked == Marked(Others(m.hdrs), c, c \in SetOf(e.subj), c \in SetOf(e.to))
        new(l, on, fits(_)) == IF on = 1 THEN Plus(e, l) /= <<>> /\ fits(Plus(e, l)[1]) ELSE Kept(e, l)
        isadd == IF e.op = "add" THEN 1 ELSE 0
    IN IF e.raised /= "" THEN "raised"
       ELSE IF o.cls /= c THEN "classification"
       ELSE IF ~new(HClass, isadd, LAMBDA v : v = Word(c)) THEN "classification header"
       ELSE IF ~new(HScore, e.score, LAMBDA v : v \in ScoreTexts(e.pk, e.digits, e.log)) THEN "score header"
       ELSE IF ~new(HLevel, e.level, LAMBDA v : v = Stars(e.pk)) THEN "level header"
       ELSE IF ~new(HEvidence, e.evidence, LAMBDA v : EvidenceFits(v, Shown(e.clues, e.cut))) THEN "evidence header"
       ELSE IF ~new(HId, IF e.uid = 1 /\ m.id /= <<>> THEN 1 ELSE 0, LAMBDA v : v = m.id[1]) THEN "identifier header"
       ELSE IF ~Kept(e, HTrained) \/ ~Kept(e, HClassId) THEN "a header of another kind was added"
       ELSE IF Others(o.hdrs) \notin marked THEN "other headers or marks"
       ELSE IF o.body /= m.body \/ o.id /= m.id \/ o.mark /= m.mark THEN "something else changed"
       ELSE ""
WhyClassify(e) ==
    IF e.raised /= "" THEN "raised"
    ELSE IF e.obs.cls /= ClassOf(e.pk, e.pf) THEN "classification"
    ELSE IF ~Same([e.obs EXCEPT !.cls = m.cls], m) THEN "something else changed" ELSE ""

\* ---- removing (C17) ----
WhyRemove(e) ==
    LET o == e.obs
        h == IF e.op = "remove" THEN Others(m.hdrs) ELSE m.hdrs
    IN IF e.raised /= "" THEN "raised"
       ELSE IF e.op = "remove" /\ \E j \in DOMAIN o.hdrs : o.hdrs[j].l \in Own THEN "one of our headers is left"
       ELSE IF o.hdrs /= Unmark(h, e.rsubj, e.rto) THEN "marks or other headers after removal"
       ELSE IF o.body /= m.body \/ o.id /= m.id \/ o.mark /= m.mark THEN "something else changed"
       ELSE IF e.trip = 1 /\ (o.hdrs /= base.hdrs \/ o.body /= base.body) THEN "adding and removing does not restore the message"
       ELSE ""
WhyReport(e) ==
    LET present == {l \in Own : Has(m.hdrs, l)}
    IN IF e.raised /= "" THEN "raised"
       ELSE IF {e.report[j].l : j \in DOMAIN e.report} /= present \/ Len(e.report) /= Cardinality(present) THEN "reported headers"
       ELSE IF \E j \in DOMAIN e.report : e.report[j].plain = 1 /\ e.report[j].v /= First(m.hdrs, e.report[j].l)
       THEN "value of a reported header"
       ELSE IF ~Same(e.obs, m) THEN "reporting changed the message" ELSE ""

\* ---- identity (C18) ----
Payload == IF Has(m.hdrs, HId) THEN [t |-> IF Step.plain = 1 THEN "text" ELSE "other", v |-> First(m.hdrs, HId)]
           ELSE [t |-> "none", v |-> <<>>]
WhyIdent(e) ==
    LET o == e.obs
        arg == IF e.op = "payload" THEN Payload ELSE e.arg
        unsaid == arg.t = "text" /\ arg.v = <<>>      \* an empty identifier
        sameid == [o EXCEPT !.id = m.id]
    IN CASE e.op \in {"setid", "payload"} ->
              IF ~Same(sameid, m) THEN "something else changed"
              ELSE IF Fixed1(m) /\ o.id /= m.id THEN "the identifier changed"
              ELSE IF unsaid /\ ~Fixed1(m) THEN (IF o.id \in {<<>>, <<<<>>>>} THEN "" ELSE "identifier")
              ELSE IF Assignable(m, arg) THEN
                   (IF o.id /= <<arg.v>> THEN "identifier not assigned"
                    ELSE IF e.raised /= "" /\ ~Fixed1(m) THEN "raised"
                    ELSE IF e.op = "payload" /\ (e.raised /= "" \/ e.res /= <<arg.v>>) THEN "result" ELSE "")
              ELSE IF o.id /= m.id THEN "an identifier that cannot be assigned"
              ELSE IF e.op = "setid" THEN (IF e.raised = "" THEN "should have been refused" ELSE "")
              ELSE IF e.raised /= "" THEN "raised"
              ELSE IF e.res /= <<>> THEN "result" ELSE ""
         [] e.op = "class" -> IF e.raised /= "" THEN "raised"
                              ELSE IF ~Same(o, [m EXCEPT !.cls = e.x]) THEN "classification" ELSE ""
         [] e.op = "remember" -> IF e.raised /= "" THEN "raised"
                                 ELSE IF ~Same(o, [m EXCEPT !.mark = e.x]) THEN "training mark" ELSE ""
         [] e.op = "restore" -> IF e.raised /= "" THEN "raised"
                                ELSE IF o.id /= m.id \/ o.cls /= m.cls \/ o.mark /= m.mark THEN "restored state"
                                ELSE IF \E j \in DOMAIN e.copies : e.copies[j].id /= m.id \/ e.copies[j].cls /= m.cls
                                                                   \/ e.copies[j].mark /= m.mark THEN "restored state" ELSE ""
         [] e.op = "classify" -> WhyClassify(e)
         [] OTHER -> IF o.id /= m.id \/ o.mark /= m.mark THEN "identifier or training mark changed" ELSE ""

\* ---- texts (C19) ----
WhyText(e) ==
    IF e.raised /= "" THEN "raised"
    ELSE CASE e.op = "crlf" -> IF e.out = ForceCrlf(e.text) THEN "" ELSE "line ends"
           [] e.op = "text" -> IF e.out = ForceCrlf(e.text) THEN "" ELSE "text of a message"
           [] e.op = "exception" -> IF e.details /= e.want THEN "returned details"
                                    ELSE WhyException(e.text, e.out, e.want, e.ident)

Why(e) ==
    CASE Prop = "C16" -> IF e.op = "classify" THEN WhyClassify(e)
                         ELSE IF e.op \in {"add", "notate"} THEN WhyAdd(e) ELSE ""
      [] Prop = "C17" -> IF e.op \in {"remove", "unmark"} THEN WhyRemove(e)
                         ELSE IF e.op = "report" THEN WhyReport(e) ELSE ""
      [] Prop = "C18" -> WhyIdent(e)
      [] Prop = "C19" -> WhyText(e)

Nothing == [id |-> <<>>, cls |-> "none", mark |-> "none", hdrs |-> <<>>, body |-> ""]
Init == t = 1 /\ i = 1 /\ m = Nothing /\ base = Nothing
Reject(e, why) == PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why, before |-> m]))
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ LET e == Step
           why == IF e.op = "start" THEN (IF Prop /= "C18" THEN "" ELSE IF e.obs.id /= e.mid THEN "identifier given at the beginning"
                                          ELSE IF e.obs.cls /= "none" \/ e.obs.mark /= "none" THEN "state of a new message" ELSE "")
                  ELSE Why(e)
       IN /\ IF why = "" THEN TRUE ELSE Reject(e, why)
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
          /\ m' = IF Prop = "C19" THEN m ELSE e.obs
          /\ base' = IF Prop /= "C19" /\ e.op = "add" THEN m ELSE base
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1 /\ m' = Nothing /\ base' = Nothing
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i, m, base>>
View == <<t, i>>
=============================================================================
