------------------------------- MODULE TStore -------------------------------
(* Saving, reloading and abrupt ends (C03, C06, C07), and the validation of  *)
(* recorded histories of real classifiers against Bayes.                     *)
(*                                                                           *)
(* Model state: m is the training state, saved the state found when the      *)
(* database is opened again, seen the values every total and every record    *)
(* has had since the last save, memo the scores given so far.                *)
EXTENDS Since, TLC, Json, IOUtils, Integers

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, m, saved, seen, memo

Trace == Traces[t]
Step == Trace.steps[i]
ToSet(s) == {s[j] : j \in DOMAIN s}

Tracked == Trace.backend = "shelve"

ObsOf(e) == [ns |-> e.obs.ns, nh |-> e.obs.nh, recs |-> {<<r[1], r[2], r[3]>> : r \in ToSet(e.obs.recs)}]
\* The records of an observation come in ascending order of their tokens.
RECURSIVE Find(_, _, _, _)
Find(s, w, lo, hi) == IF lo = hi THEN s[lo]
                      ELSE LET mid == (lo + hi) \div 2 IN IF s[mid][1] < w THEN Find(s, w, mid + 1, hi) ELSE Find(s, w, lo, mid)
FromObs(e) == [ns |-> e.obs.ns, nh |-> e.obs.nh,
               wi |-> [w \in {r[1] : r \in ToSet(e.obs.recs)} |->
                         LET r == Find(e.obs.recs, w, 1, Len(e.obs.recs)) IN [s |-> r[2], h |-> r[3]]]]

\* C07: what an abrupt end may leave behind.
AllowedAfterEnd(x, how) ==
    IF Trace.backend /= "shelve" THEN Obs(x) = Obs(saved)
    ELSE \/ Obs(x) = Obs(saved)
         \/ OneOfSince(x, saved, seen)

\* C03: a score is a function of the totals and the counts of the distinct tokens
\* (for bigrams of the sequence of tokens, also of how ties between words break).
ScoreKey(x, e) ==
    IF Trace.bigrams
    THEN <<Trace.cz, x.ns, x.nh, [j \in DOMAIN e.ms |-> <<e.ms[j], Cnt(x, e.ms[j])>>],
           [j \in 1 .. Len(e.ms) - 1 |-> Cnt(x, Pair(e.ms[j], e.ms[j + 1]))]>>
    ELSE <<0, x.ns, x.nh, {<<w, Cnt(x, w)>> : w \in ToSet(e.ms)}, <<>>>>
Close(a, b) == a - b \in -3 .. 3
EvWords(ev) == {p[1] : p \in ToSet(ev)}
SameEvidence(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A p \in ToSet(a) : \E q \in ToSet(b) : p[1] = q[1] /\ Close(p[2], q[2])
ScoreVal(e) == [score |-> e.score, hasev |-> e.hasev, ev |-> e.ev, ind |-> e.ind]
\* The first full observation counts, later ones have to agree with it.
MemoOK(k, e) ==
    k \in DOMAIN memo =>
      /\ Close(memo[k].score, e.score)
      /\ (e.hasev = 1 /\ memo[k].hasev = 1) =>
           /\ SameEvidence(memo[k].ev, e.ev)
           /\ Close(memo[k].ind[1], e.ind[1]) /\ Close(memo[k].ind[2], e.ind[2])
MemoAdd(k, e) ==
    IF k \notin DOMAIN memo \/ (memo[k].hasev = 0 /\ e.hasev = 1)
    THEN (k :> ScoreVal(e)) @@ memo ELSE memo

N(e) == IF "n" \in DOMAIN e THEN e.n ELSE 1
Words(e) == Expand(e.ms, Trace.bigrams)

\* The model state after the step.
After(e) ==
    CASE e.op \in {"learn", "flood"} -> Learn(m, Words(e), e.k, N(e))
      [] e.op = "unlearn" -> IF CanUnlearn(m, e.k, N(e)) THEN Unlearn(m, Words(e), e.k, N(e)) ELSE m
      [] e.op \in {"load", "reopen", "drop", "kill", "gone"} ->
            IF Trace.backend /= "shelve" THEN saved
            ELSE IF e.has = 1 THEN FromObs(e) ELSE saved
      [] OTHER -> m

\* The state after the first k of the N(e) repetitions.
Partly(e, k) ==
    CASE e.op = "learn" -> Learn(m, Words(e), e.k, k)
      [] e.op = "unlearn" -> IF CanUnlearn(m, e.k, k) THEN Unlearn(m, Words(e), e.k, k) ELSE m
      [] OTHER -> m

MustRaise(e) ==
    \/ e.op \in {"learnfail", "unlearnfail"}
    \/ e.op = "unlearn" /\ ~CanUnlearn(m, e.k, N(e))

\* Why the step is not one of the specification; "" if it is.
Why(e) ==
    LET x == After(e) IN
    CASE MustRaise(e) /\ e.raised = "" -> "should have raised"
      [] ~MustRaise(e) /\ e.raised /= "" -> "raised"
      [] e.has = 1 /\ e.op \in {"load", "reopen", "drop", "kill", "gone"} /\ ~AllowedAfterEnd(FromObs(e), e.op) -> "state after reopening"
      [] e.has = 1 /\ (e.obs.ns /= x.ns \/ e.obs.nh /= x.nh) -> "totals"
      [] e.has = 1 /\ ObsOf(e).recs /= Recs(x) -> "token counts"
      [] e.has = 1 /\ e.obs.extra /= 0 -> "unknown tokens"
      [] e.op \in {"score", "fresh"} /\ e.score < 0 -> "score outside [0, 1]"
      [] e.op \in {"score", "fresh"} /\ ~e.asc -> "order of evidence"
      [] e.op \in {"score", "fresh"} /\ ~MemoOK(ScoreKey(x, e), e) -> "score differs in the same state"
      [] OTHER -> ""

Init == /\ t = 1 /\ i = 1 /\ m = Empty /\ saved = Empty /\ seen = SeenOf(Empty)
        /\ memo = [k \in {} |-> 0]

Reject(e, why) ==
    PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why,
                   expected |-> Obs(After(e)), saved |-> Obs(saved)]))

Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ LET e == Step
           why == Why(e)
           x == After(e)
           reset == e.op \in {"store", "load", "reopen", "drop", "kill", "gone"}
       IN /\ IF why = "" THEN TRUE ELSE Reject(e, why)
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
          /\ m' = x
          /\ saved' = IF e.op = "store" \/ (reset /\ Trace.backend = "shelve") THEN x ELSE saved
          /\ seen' = IF ~Tracked THEN seen ELSE IF reset THEN SeenOf(x)
                      ELSE IF N(e) > 1 /\ e.op /= "flood" THEN SeeAll(seen, {Partly(e, k) : k \in 1 .. N(e)})
                      ELSE IF e.op = "flood" THEN [See(seen, x) EXCEPT !.ns = @ \cup (m.ns .. x.ns)]
                      ELSE See(seen, x)
          /\ memo' = IF why = "" /\ e.op \in {"score", "fresh"} THEN MemoAdd(ScoreKey(x, e), e) ELSE memo
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1 /\ m' = Empty /\ saved' = Empty /\ seen' = SeenOf(Empty)
    /\ UNCHANGED memo
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
vars == <<t, i, m, saved, seen, memo>>
Spec == Init /\ [][Next]_vars
\* The memo only grows with the position.
View == <<t, i>>
=============================================================================
