------------------------------ MODULE TCorpus ------------------------------
(* Validation of recorded histories of corpora, trainers and expiry passes.  *)
EXTENDS Corpus, TLC, Json, IOUtils
INSTANCE Bayes

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, cs, ms, marks, now, planted, gone
\* cs: entries of each corpus; ms: training state of each classifier;
\* marks: training mark of each message object; gone: corpora replaced by a
\* newly opened one (no longer watched).
Trace == Traces[t]
Step == Trace.steps[i]
Prop == Trace.prop
Conf(c) == Trace.corpora[c]
IsFile(c) == Conf(c).kind /= "mem"
Name(k) == Trace.names[k]
SetOf(s) == {s[j] : j \in DOMAIN s}

Matches(c, k) == k > 0 /\ Match(Conf(c).pat, Name(k))
\* What can be stored in corpus c under key k.
Storable(c, k) == IF IsFile(c) THEN Matches(c, k) /\ PlainName(Name(k)) ELSE TRUE
Visible(c) == IF IsFile(c) THEN SelectSeq(cs[c], LAMBDA x : Matches(c, x.k)) ELSE cs[c]

\* ---- the operations ----
\* fails: 1 the directory is read-only, 2 the message cannot be turned into bytes
Refused(e) == e.op = "add" /\ (~Storable(e.c, e.k) \/ e.fails > 0)
Refusable(e) == e.op \in {"remove", "drop"} /\ ~Storable(e.c, e.k)
Present(c, k) == k \in KeysOf(Visible(c))
\* age 0..: time of storing; the limit of a corpus is Conf.age + 1/2, or
\* exactly Conf.age: a message of just that age is not older than the limit
Old(c, x) == now - x.at > Conf(c).age
Optional(c, x) == \E p \in planted : p[1] = c /\ p[2] = x.k /\ now - p[3] <= Conf(c).age + 1
ExpiredIn(c, kept) == {x.k : x \in {y \in SetOf(Visible(c)) : Old(c, y) /\ (~Optional(c, y) \/ y.k \notin kept)}}

AfterPass(e) == LET kept == {e.see[1].keys[j] : j \in DOMAIN e.see[1].keys}
                    lost == ExpiredIn(e.c, kept)
                IN SelectSeq(cs[e.c], LAMBDA x : x.k \notin lost)
After(e) ==
    CASE e.op = "add" -> IF Refused(e) THEN cs[e.c] ELSE Put(cs[e.c], e.k, e.o, now, Conf(e.c).limit)
      [] e.op \in {"remove", "drop"} -> IF Refusable(e) THEN cs[e.c] ELSE Del(cs[e.c], e.k)
      [] e.op = "plant" -> Put(cs[e.c], e.k, e.o, now - e.age, 0)
      [] e.op = "pass" -> AfterPass(e)
      [] OTHER -> IF e.c = 0 THEN <<>> ELSE cs[e.c]

\* ---- signals ----
Emits(e) == /\ e.op \in {"add", "remove", "drop"} /\ e.emit = 1 /\ ~Refused(e) /\ ~Refusable(e)
Event(e) == IF e.op = "add" THEN "added" ELSE "removed"
\* Every listener hears it once, with sender and message, after the change. Removing an
\* absent message may or may not be announced.
Heard(e) == {<<Event(e), l, e.c, e.o, 1>> : l \in {0, e.c}}
SignalsOK(e) ==
    LET got == {<<e.sig[j].ev, e.sig[j].at, e.sig[j].c, e.sig[j].o, e.sig[j].done>> : j \in DOMAIN e.sig}
        want == IF Emits(e) THEN Heard(e) ELSE {}
    IN \/ got = want /\ Len(e.sig) = Cardinality(want)
       \/ e.op \in {"remove", "drop"} /\ ~Present(e.c, e.k) /\ e.sig = <<>>

\* ---- training ----
Watching(e) == IF e.c = 0 \/ e.c \in gone THEN {}
               ELSE {j \in DOMAIN Trace.watch : e.c \in SetOf(Trace.watch[j].corpora)}
Toks(o) == SetOf(Trace.objs[o].toks)
RECURSIVE Apply(_, _, _)
Apply(m, js, e) ==
    IF js = {} THEN m
    ELSE LET j == CHOOSE x \in js : TRUE
             w == Trace.watch[j]
             m2 == IF e.op = "add" THEN Learn(m, Toks(e.o), w.kind, 1) ELSE Unlearn(m, Toks(e.o), w.kind, 1)
         IN Apply(m2, js \ {j}, e)
\* A classifier that fails has learned nothing, and the message is marked as before.
Broken(e) == e.broken = 1 /\ Emits(e) /\ Watching(e) /= {}
Trained(e, x) == IF ~Emits(e) \/ Broken(e) THEN ms[x]
                 ELSE Apply(ms[x], {j \in Watching(e) : Trace.watch[j].clf = x}, e)
MarkAfter(e) == IF Emits(e) /\ ~Broken(e) /\ Watching(e) /= {}
                THEN IF e.op = "add" THEN Trace.watch[CHOOSE j \in Watching(e) : TRUE].kind ELSE "none"
                ELSE e.mark0
MarkKnown(e) == Cardinality({Trace.watch[j].kind : j \in Watching(e)}) <= 1

\* ---- what is seen of a corpus ----
WhySee(s, es) ==
    LET vis == IF IsFile(s.c) THEN SelectSeq(es, LAMBDA x : Matches(s.c, x.k)) ELSE es
        ps == Pairs(vis)
        ks == KeysOf(vis)
    IN IF s.err /= "" THEN "a query raised"
       ELSE IF Conf(s.c).limit > 0 /\ s.len > Conf(s.c).limit THEN "more messages than the limit"
       ELSE IF SetOf(s.keys) /= ks \/ Len(s.keys) /= Len(vis) THEN "keys"
       ELSE IF SetOf(s.iter) /= ks \/ Len(s.iter) /= Len(vis) THEN "iteration"
       ELSE IF s.len /= Len(vis) THEN "length"
       ELSE IF SetOf(s.has) /= ks THEN "membership"
       ELSE IF SetOf(s.get) /= ps THEN "get"
       ELSE IF SetOf(s.item) /= ps THEN "lookup"
       ELSE IF SetOf(s.items) /= ps \/ Len(s.items) /= Len(vis) THEN "items"
       ELSE IF Len(s.values) /= Len(vis) \/ SetOf(s.values) /= {p[2] : p \in ps} THEN "values"
       ELSE IF ~IsFile(s.c) /\ \E j \in DOMAIN s.keys : s.items[j] /= <<s.keys[j], s.values[j]>>
       THEN "keys, values and items do not agree"
       ELSE IF IsFile(s.c) /\ s.ident = 0 THEN "identifier of a message that was looked up"
       ELSE IF IsFile(s.c) /\ SetOf(s.dir) /= Pairs(es) THEN "files of the directory"
       ELSE ""
WhyAll(e) ==
    LET bad == {j \in DOMAIN e.see :
                  WhySee(e.see[j], IF e.see[j].c = e.c THEN After(e) ELSE cs[e.see[j].c]) /= ""}
    IN IF bad = {} THEN ""
       ELSE LET j == CHOOSE x \in bad : TRUE
            IN WhySee(e.see[j], IF e.see[j].c = e.c THEN After(e) ELSE cs[e.see[j].c])

WhyRaised(e) == IF Refused(e) THEN IF e.raised = "" THEN "should have been refused" ELSE ""
                ELSE IF Refusable(e) THEN ""
                ELSE IF e.op = "look" \/ Broken(e) THEN ""
                ELSE IF e.raised /= "" THEN "raised" ELSE ""
\* Memory: what the corpora keep alive by themselves.
RECURSIVE Room(_)
Room(c) == IF c = 0 THEN 0
           ELSE Room(c - 1) + IF IsFile(c) THEN Conf(c).cache ELSE Len(cs[c])
WhyHeld(e) == IF e.op = "held" /\ e.held > Room(Len(cs)) THEN "messages kept in memory" ELSE ""
WhyTraining(e) ==
    IF \E x \in DOMAIN ms : LET m == Trained(e, x)
                                o == e.clf[x]
                            IN o.ns /= m.ns \/ o.nh /= m.nh
                               \/ {<<r[1], r[2], r[3]>> : r \in SetOf(o.recs)} /= Recs(m) \/ o.extra /= 0
    THEN "training"
    ELSE IF e.o > 0 /\ e.op \in {"add", "remove", "drop"} /\ MarkKnown(e) /\ e.mark /= MarkAfter(e) THEN "training mark"
    ELSE ""
WhyOutside(e) ==
    IF e.outside /= <<>> THEN "something outside the directory was touched"
    ELSE IF e.tree /= "same" THEN "files outside the directory changed"
    ELSE IF e.op = "look" /\ e.found = 1 /\ ~Present(e.c, e.k) THEN "found outside the directory"
    ELSE IF (Refused(e) \/ Refusable(e)) /\ e.sig /= <<>> THEN "a refused identifier was announced"
    ELSE ""

Why(e) ==
    LET r == WhyRaised(e) IN
    IF r /= "" THEN r
    ELSE CASE Prop \in {"C11", "C12", "C15"} ->
                IF Prop = "C15" /\ WhyTraining(e) /= "" THEN "a pass trained or untrained"
                ELSE IF WhyHeld(e) /= "" THEN WhyHeld(e) ELSE WhyAll(e)
           [] Prop = "C13" -> IF SignalsOK(e) THEN "" ELSE "signals"
           [] Prop = "C14" -> WhyTraining(e)
           [] Prop = "C26" -> IF WhyOutside(e) /= "" THEN WhyOutside(e) ELSE WhyAll(e)

Start(n) == [c \in DOMAIN Traces[n].corpora |-> [j \in DOMAIN Traces[n].corpora[c].init |->
               [k |-> Traces[n].corpora[c].init[j][1], o |-> Traces[n].corpora[c].init[j][2],
                at |-> 0 - Traces[n].corpora[c].init[j][3]]]]
NoTraining(n) == [x \in 1 .. Traces[n].nclf |-> Empty]
Init == /\ t = 1 /\ i = 1 /\ now = 0 /\ planted = {} /\ gone = {} /\ marks = 0
        /\ cs = Start(1) /\ ms = NoTraining(1)
Reject(e, why) ==
    PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why, now |-> now,
                   expected |-> IF e.c = 0 THEN <<>> ELSE After(e),
                   training |-> [x \in DOMAIN ms |-> Obs(Trained(e, x))], emits |-> Emits(e)]))
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ LET e == Step
           why == Why(e)
       IN /\ IF why = "" THEN TRUE ELSE Reject(e, why)
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
          /\ IF why /= "" THEN UNCHANGED <<cs, ms, now, planted, gone>>
             ELSE /\ cs' = IF e.c = 0 THEN cs ELSE [cs EXCEPT ![e.c] = After(e)]
                  /\ ms' = [x \in DOMAIN ms |-> Trained(e, x)]
                  /\ now' = IF e.op = "tick" THEN now + e.age ELSE now
                  /\ planted' = IF e.op = "plant" THEN planted \cup {<<e.c, e.k, now>>}
                                ELSE IF e.op = "add" THEN {p \in planted : p[1] /= e.c \/ p[2] /= e.k} ELSE planted
                  /\ gone' = IF e.op = "reopen" THEN gone \cup {e.c} ELSE gone
    /\ UNCHANGED <<t, marks>>
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1 /\ now' = 0 /\ planted' = {} /\ gone' = {}
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) /\ UNCHANGED <<cs, ms>>
       ELSE cs' = Start(t + 1) /\ ms' = NoTraining(t + 1)
    /\ UNCHANGED marks
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i, cs, ms, marks, now, planted, gone>>
View == <<t, i>>
=============================================================================
