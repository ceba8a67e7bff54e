------------------------------ MODULE MCSlurp ------------------------------
(* All histories of up to MaxOps operations on two urls. World outcomes: "p" *)
(* and "q" are two versions of the page, "f" is a failure. Time passes at    *)
(* restarts only; pages older than Limit are gone then.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Limit
VARIABLES link, world, mem, age, fetched, n, act
Urls == {1, 2}
Outcomes == {"p", "q", "f"}
vars == <<link, world, mem, age, fetched, n, act>>
Init == /\ link = 0 /\ world = [u \in Urls |-> IF u = 1 THEN "p" ELSE "f"] /\ mem = [u \in Urls |-> ""]
        /\ age = [u \in Urls |-> 0] /\ fetched = [u \in Urls |-> 0] /\ n = 0
        /\ act = [op |-> "init", u |-> 0, x |-> ""]
Op(a) == n < MaxOps /\ n' = n + 1 /\ act' = a
Analyze(u) == /\ Op([op |-> "analyze", u |-> u, x |-> ""]) /\ link' = u /\ UNCHANGED <<world, mem, age, fetched>>
\* learning, unlearning, or scoring a message that is unsure
Use(how) == /\ Op([op |-> how, u |-> 0, x |-> ""])
            /\ IF link = 0 \/ how = "sure" \/ mem[link] /= "" THEN UNCHANGED <<mem, age, fetched>>
               ELSE /\ mem' = [mem EXCEPT ![link] = world[link]] /\ age' = [age EXCEPT ![link] = 0]
                    /\ fetched' = [fetched EXCEPT ![link] = @ + 1]
            /\ UNCHANGED <<link, world>>
Change(u, o) == /\ world[u] /= o /\ Op([op |-> "world", u |-> u, x |-> o]) /\ world' = [world EXCEPT ![u] = o]
                /\ UNCHANGED <<link, mem, age, fetched>>
Restart(d) ==
    /\ Op([op |-> "restart", u |-> d, x |-> ""]) /\ link' = 0 /\ UNCHANGED world
    /\ LET old == {u \in Urls : mem[u] \in {"p", "q"} /\ age[u] + d > Limit}
       IN /\ mem' = [u \in Urls |-> IF u \in old THEN "" ELSE mem[u]]
          /\ fetched' = [u \in Urls |-> IF u \in old THEN 0 ELSE fetched[u]]
          /\ age' = [u \in Urls |-> IF u \in old \/ mem[u] \notin {"p", "q"} THEN 0 ELSE age[u] + d]
Next == \/ \E u \in Urls \cup {0} : Analyze(u)
        \/ \E how \in {"learn", "unsure", "sure"} : Use(how)
        \/ \E u \in Urls, o \in Outcomes : Change(u, o)
        \/ \E d \in {0, 4, 9} : Restart(d)
Spec == Init /\ [][Next]_vars
View == <<link, world, mem, age, fetched, n>>
FetchedOnce == \A u \in Urls : fetched[u] <= 1 /\ (fetched[u] = 1 <=> mem[u] /= "")
FailuresStay == [][\A u \in Urls : mem[u] = "f" => mem'[u] = "f"]_vars
PagesStay == [][act'.op /= "restart" => \A u \in Urls : mem[u] /= "" => mem'[u] = mem[u]]_vars
SureNeedsNothing == [][act'.op = "sure" => UNCHANGED <<mem, fetched>>]_vars
Emit == PrintT(ToJson([init |-> (n = 0), pre |-> <<link, world, mem, age, n>>, act |-> act',
                       post |-> <<link', world', mem', age', n'>>]))
=============================================================================
