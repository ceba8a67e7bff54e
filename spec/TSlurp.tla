------------------------------- MODULE TSlurp -------------------------------
(* Validation of recorded histories of a link-following classifier (C23).    *)
(* Tokens are numbers 1 .. Trace.n. Trace.pages[k] = [ids |-> the tokens of  *)
(* page k, words |-> those its text must give]; Trace.fails: the numbers of  *)
(* the failure tokens; Trace.world: outcomes at the start, by url number;    *)
(* Trace.urls: the urls that ever occur as links.                            *)
EXTENDS Slurp, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, link, world, mem, age, cnt, tot
Trace == Traces[t]
Step == Trace.steps[i]
SetOf(s) == {s[j] : j \in DOMAIN s}
Empty == [link |-> <<>>, world |-> <<>>, mem |-> <<>>, age |-> <<>>, cnt |-> <<>>, tot |-> <<0, 0>>]
Fresh(k) ==
    IF k > Len(Traces) THEN Empty
    ELSE [Empty EXCEPT !.world = Traces[k].world, !.mem = [j \in DOMAIN Traces[k].urls |-> <<>>],
                       !.age = [j \in DOMAIN Traces[k].urls |-> 0], !.cnt = [w \in 1 .. Traces[k].n |-> <<0, 0>>]]
Now == [link |-> link, world |-> world, mem |-> mem, age |-> age, cnt |-> cnt, tot |-> tot]
Be(s) == /\ link' = s.link /\ world' = s.world /\ mem' = s.mem /\ age' = s.age /\ cnt' = s.cnt /\ tot' = s.tot
Init == t = 1 /\ i = 1 /\ link = Fresh(1).link /\ world = Fresh(1).world /\ mem = Fresh(1).mem
        /\ age = Fresh(1).age /\ cnt = Fresh(1).cnt /\ tot = Fresh(1).tot

\* What is asked for when a url is followed, and its number; 0 for the empty url.
Asked(u) == IF Trace.base = 1 /\ u /= <<>> THEN Base(u) ELSE u
UrlNo(u) == IF u = <<>> THEN 0 ELSE Let(Asked(u), LAMBDA a : CHOOSE j \in DOMAIN Trace.urls : Trace.urls[j] = a)
NoFollow == [out |-> Fail(""), fetch |-> 0, mem |-> <<>>]
FollowNow ==
    IF link = <<>> THEN NoFollow
    ELSE LET j == UrlNo(link[1])
         IN IF j = 0 THEN Follow(<<>>, <<>>, Fail(NonResolving)) ELSE Follow(Trace.urls[j], mem[j], world[j])
Followed(s, f) ==
    IF s.link = <<>> \/ s.link[1] = <<>> THEN s
    ELSE LET j == UrlNo(s.link[1])
         IN IF s.mem[j] /= <<>> THEN s ELSE [s EXCEPT !.mem[j] = f.mem, !.age[j] = 0]
FailNo(tok) == CHOOSE w \in 1 .. Trace.n : \E j \in DOMAIN Trace.fails : Trace.fails[j].tok = tok /\ Trace.fails[j].id = w
TokensOf(out) == IF out.page > 0 THEN SetOf(Trace.pages[out.page].ids) ELSE IF out.tok = "" THEN {} ELSE {FailNo(out.tok)}

\* The number of requests of url j that a step that follows (or not) makes.
Gets(e, j) == Cardinality({k \in DOMAIN e.gets : e.gets[k] = j})
GetsOk(e, f) == \A j \in DOMAIN Trace.urls : Gets(e, j) = (IF link /= <<>> /\ UrlNo(link[1]) = j THEN f.fetch ELSE 0)
\* A remembered failure is not looked up again.
LookupsOk(e, f) == link = <<>> \/ link[1] = <<>> \/ mem[UrlNo(link[1])] = <<>> \/ f.out.page > 0 \/ e.lookups = 0

\* ---- the recorded counts ----
Recs(c) == {<<w, c[w][1], c[w][2]>> : w \in {v \in DOMAIN c : c[v] /= <<0, 0>>}}
ObsOk(e, s) == e.tot = s.tot /\ SetOf(e.recs) = Recs(s.cnt) /\ Len(e.recs) = Cardinality(SetOf(e.recs))

\* ---- training ----
Trained(s, e, toks) ==
    [s EXCEPT !.cnt = Counted(@, toks, e.k, e.op = "learn"),
              !.tot = IF e.k = "spam" THEN <<IF e.op = "learn" THEN @[1] + 1 ELSE @[1] - 1, @[2]>>
                      ELSE <<@[1], IF e.op = "learn" THEN @[2] + 1 ELSE @[2] - 1>>]

\* ---- scoring: e.base and e.options[j] are [score, ev] of the basic classifier for
\* the message and for its clues with the tokens of an outcome; scores in 1e-9 units ----
Unsure(p) == p > 200000000 /\ p < 900000000
Option(e, out) == LET js == {j \in DOMAIN e.options : e.options[j].out = out} IN e.options[CHOOSE j \in js : TRUE]
Same(a, b) == a.score - b.score \in -2 .. 2 /\ a.ev = b.ev
\* a message with as many clues as can be used (e.many) needs none from a page
ScoreFollows(e, f) == Unsure(e.base.score) /\ link /= <<>> /\ e.many = 0
WhyScore(e, f) ==
    IF ~ScoreFollows(e, f)
    THEN IF ~Same(e.got, e.base) THEN "score without following a link"
         ELSE IF e.gets /= <<>> THEN "a page is fetched needlessly" ELSE ""
    ELSE LET with == Option(e, f.out)
             best == IF Unsure(with.score) THEN e.base ELSE with
         IN IF Same(e.got, best)
            THEN IF GetsOk(e, f) THEN IF LookupsOk(e, f) THEN "" ELSE "a remembered failure is tried again"
                 ELSE "fetches"
            ELSE "score of an unsure message"

Old(s, days) == {j \in DOMAIN s.mem : s.mem[j] /= <<>> /\ s.mem[j][1].page > 0 /\ s.age[j] + days > Trace.limit}
Restarted(s, days) ==
    [s EXCEPT !.link = <<>>,
              !.mem = [j \in DOMAIN s.mem |-> IF j \in Old(s, days) THEN <<>> ELSE s.mem[j]],
              !.age = [j \in DOMAIN s.mem |-> IF j \in Old(s, days) THEN 0 ELSE s.age[j] + days]]

After(e, f) ==
    CASE e.raised /= "" -> Now
      [] e.op = "analyze" -> [Now EXCEPT !.link = IF e.texts = <<>> THEN @ ELSE LastLink(e.texts[Len(e.texts)])]
      [] e.op \in {"learn", "unlearn"} -> Trained(Followed(Now, f), e, SetOf(e.tokens) \cup TokensOf(f.out))
      [] e.op = "score" -> IF ScoreFollows(e, f) THEN Followed(Now, f) ELSE Now
      [] e.op = "world" -> [Now EXCEPT !.world[e.url] = e.out]
      [] e.op = "restart" -> IF e.carry = 1 THEN Restarted(Now, e.days)
                             ELSE [Restarted(Now, e.days) EXCEPT !.cnt = [w \in DOMAIN cnt |-> <<0, 0>>], !.tot = <<0, 0>>]
      [] e.op = "pages" -> Now
\* Unlearning with another outcome of the link than learning can leave counts above
\* the totals; nothing is said of scores then, and of what comes behind one that fails.
Consistent == \A w \in DOMAIN cnt : cnt[w][1] <= tot[1] /\ cnt[w][2] <= tot[2]
Why(e, f, s) ==
    IF e.raised /= "" THEN IF e.op = "score" /\ ~Consistent THEN "open" ELSE "raised"
    ELSE IF Trace.proxy = 1 /\ e.op \in {"learn", "unlearn", "score"} /\ e.direct > 0 THEN "a request past the proxy"
    ELSE IF e.op \in {"learn", "unlearn"}
    THEN IF ~GetsOk(e, f) THEN "fetches" ELSE IF ~LookupsOk(e, f) THEN "a remembered failure is tried again"
         ELSE IF ~ObsOk(e, s) THEN "counts" ELSE ""
    ELSE IF e.op = "score" THEN IF WhyScore(e, f) /= "" THEN WhyScore(e, f) ELSE IF ~ObsOk(e, s) THEN "scoring changes counts" ELSE ""
    ELSE IF e.op = "pages" THEN IF \A j \in DOMAIN Trace.pages : SetOf(Trace.pages[j].words) \subseteq SetOf(Trace.pages[j].ids) THEN "" ELSE "words of the page"
    ELSE IF e.op = "analyze" /\ e.gets /= <<>> THEN "a page is fetched needlessly" ELSE ""
Want(f, s) == [follow |-> f, link |-> s.link]

Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ \E e \in {Step} : \E f \in {FollowNow} : \E s \in {After(e, f)} : \E why \in {Why(e, f, s)} :
          /\ IF why \in {"", "open"} THEN TRUE ELSE PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why, want |-> Want(f, s)]))
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
          /\ Be(s)
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1 /\ Be(Fresh(t + 1))
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i, link, world, mem, age, cnt, tot>>
View == <<t, i>>
=============================================================================
