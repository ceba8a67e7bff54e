------------------------------- MODULE TScore -------------------------------
(* Validation of recorded scores and evidence against the exact scoring      *)
(* rule (C04) and the choice of clues among tokens and pairs (C05). The      *)
(* training state m follows Bayes; every score step is judged in it.         *)
EXTENDS Score, TLC, Json, IOUtils
INSTANCE Bayes

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, m

Trace == Traces[t]
Step == Trace.steps[i]

N(e) == IF "n" \in DOMAIN e THEN e.n ELSE 1
Words(e) == Expand(e.ms, Trace.bigrams)
FromSet(e) == [ns |-> e.ns, nh |-> e.nh,
               wi |-> [w \in {r[1] : r \in Range(e.recs)} |->
                         LET r == CHOOSE x \in Range(e.recs) : x[1] = w IN [s |-> r[2], h |-> r[3]]]]
After(e) ==
    CASE e.op = "learn" -> Learn(m, Words(e), e.k, N(e))
      [] e.op = "unlearn" -> IF CanUnlearn(m, e.k, N(e)) THEN Unlearn(m, Words(e), e.k, N(e)) ELSE m
      [] e.op = "set" -> FromSet(e)
      [] OTHER -> m

Tol == <<0, 0, 1>>
Near(x, n) == n >= 0 /\ Le(AbsDiff(x, Billionths(n)), Billionths(2))
Near3(x, n) == n >= 0 /\ Le(AbsDiff(x, Billionths(n)), Billionths(4))

\* The positions a candidate occupies: those of its first occurrence.
Pos(ms, w) ==
    IF w < 1000 THEN {CHOOSE j \in DOMAIN ms : ms[j] = w /\ \A l \in 1 .. j - 1 : ms[l] /= w}
    ELSE LET at(j) == Pair(ms[j], ms[j + 1]) = w
             f == CHOOSE j \in 1 .. Len(ms) - 1 : at(j) /\ \A l \in 1 .. j - 1 : ~at(l)
         IN {f, f + 1}

\* The evidence of a score, judged clue by clue.
WhyScore(e) ==
    LET words == Expand(e.ms, Trace.bigrams)
        known == {w \in words : Cnt(m, w) /= None}
        classes == SetToSeq({Cnt(m, w) : w \in known})
        tab == FoldLeft(LAMBDA acc, c : LET p == Prob(m.ns, m.nh, c.s, c.h)
                                        IN Append(acc, [p |-> p, weak |-> Weak(p), border |-> Borderline(p),
                                                        dist |-> Distance(p), fix |-> Fixed(p)]), <<>>, classes)
        idx(w) == CHOOSE j \in DOMAIN classes : classes[j] = Cnt(m, w)
        strong == {w \in known : ~tab[idx(w)].weak /\ ~tab[idx(w)].border}
        border == {w \in known : tab[idx(w)].border}
        chosen == {e.ev[j][1] : j \in DOMAIN e.ev}
        \* is y at least as strong as x
        geq(y, x) == idx(x) = idx(y) \/ Le(tab[idx(x)].dist, Add(tab[idx(y)].dist, Tol))
        left == strong \ chosen
        used == SelectSeq([j \in 1 .. Len(classes) |-> j], LAMBDA j : \E w \in chosen : idx(w) = j)
        cnts == [j \in 1 .. Len(used) |-> Cardinality({w \in chosen : idx(w) = used[j]})]
        probs == [j \in 1 .. Len(used) |-> tab[used[j]].p]
    IN IF Cardinality(chosen) /= Len(e.ev) THEN "a clue is used twice"
       ELSE IF ~(chosen \subseteq words) THEN "a clue that is not in the message"
       ELSE IF ~(chosen \subseteq strong \cup border) THEN "a clue that is too weak or unknown"
       ELSE IF Len(e.ev) > MaxClues THEN "more than 150 clues"
       ELSE IF \E j \in DOMAIN e.ev : ~Near(tab[idx(e.ev[j][1])].fix, e.ev[j][2]) THEN "probability of a clue"
       ELSE IF Trace.bigrams /\ \E x, y \in chosen : x /= y /\ Pos(e.ms, x) \cap Pos(e.ms, y) /= {}
       THEN "two clues share a position"
       ELSE IF \E x \in left :
                 /\ ~(Len(e.ev) = MaxClues /\ \A y \in chosen : geq(y, x))
                 /\ ~(Trace.bigrams /\ \E y \in chosen : Pos(e.ms, x) \cap Pos(e.ms, y) /= {} /\ geq(y, x))
       THEN "a clue is missing"
       ELSE IF ~e.asc THEN "order of the evidence"
       ELSE IF chosen = {} THEN
            IF e.score /= 500000000 THEN "score without clues" ELSE ""
       ELSE IF ~Near3(SInd(probs, cnts), e.ind[2]) THEN "indicator S"
       ELSE IF ~Near3(HInd(probs, cnts), e.ind[1]) THEN "indicator H"
       ELSE IF 2 * (e.score - 500000000) - (e.ind[2] - e.ind[1]) \notin -6 .. 6 THEN "score"
       ELSE ""

Why(e) ==
    IF e.op \in {"learnfail", "unlearnfail"} \/ (e.op = "unlearn" /\ ~CanUnlearn(m, e.k, N(e))) THEN IF e.raised = "" THEN "should have raised" ELSE ""
    ELSE IF e.raised /= "" THEN "raised"
    ELSE IF e.op \in {"score", "fresh"} THEN
        IF e.score < 0 THEN "score outside [0, 1]"
        ELSE IF e.hasev = 1 THEN WhyScore(e) ELSE ""
    ELSE ""

Init == t = 1 /\ i = 1 /\ m = Empty
Consume ==
    /\ t <= Len(Traces) /\ i <= Len(Trace.steps)
    /\ LET e == Step
           why == Why(e)
       IN /\ IF why = "" THEN TRUE ELSE PrintT(ToJson([reject |-> Trace.id, step |-> i, why |-> why,
                                                       expected |-> [ns |-> m.ns, nh |-> m.nh]]))
          /\ i' = IF why = "" THEN i + 1 ELSE Len(Trace.steps) + 1
          /\ m' = After(e)
    /\ UNCHANGED t
NextTrace ==
    /\ t <= Len(Traces) /\ i > Len(Trace.steps)
    /\ t' = t + 1 /\ i' = 1 /\ m' = Empty
    /\ IF t = Len(Traces) THEN PrintT(ToJson([done |-> TRUE, n |-> Len(Traces)])) ELSE TRUE
Next == Consume \/ NextTrace
Spec == Init /\ [][Next]_<<t, i, m>>
View == <<t, i>>
=============================================================================
