------------------------------- MODULE Since -------------------------------
(* What a database may hold after its writer ended without saving (C07).     *)
EXTENDS Bayes

\* Values seen since the last save.
SeenOf(x) == [ns |-> {x.ns}, nh |-> {x.nh}, wi |-> [w \in DOMAIN x.wi |-> {x.wi[w]}]]
See(s, x) ==
    [ns |-> s.ns \cup {x.ns}, nh |-> s.nh \cup {x.nh},
     wi |-> [w \in DOMAIN s.wi \cup DOMAIN x.wi |->
                (IF w \in DOMAIN s.wi THEN s.wi[w] ELSE {None}) \cup {Cnt(x, w)}]]

SeeAll(s, xs) ==
    [ns |-> s.ns \cup {x.ns : x \in xs}, nh |-> s.nh \cup {x.nh : x \in xs},
     wi |-> [w \in DOMAIN s.wi \cup UNION {DOMAIN x.wi : x \in xs} |->
                (IF w \in DOMAIN s.wi THEN s.wi[w] ELSE {None}) \cup {Cnt(x, w) : x \in xs}]]

\* Every total and every token's counts are values they had since the save old.
OneOfSince(x, old, s) ==
    /\ x.ns \in s.ns /\ x.nh \in s.nh
    /\ \A w \in DOMAIN x.wi \cup DOMAIN old.wi :
          Cnt(x, w) \in (IF w \in DOMAIN s.wi THEN s.wi[w] ELSE {None})
    /\ Consistent(x)
=============================================================================
