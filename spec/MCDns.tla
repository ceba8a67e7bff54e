------------------------------- MODULE MCDns -------------------------------
(* All histories of lookups nested up to Depth and changes of the default by *)
(* the application, with Total lookups.                                      *)
EXTENDS Dns, TLC, Json
CONSTANTS Depth, Total, Defaults, Limit
VARIABLES timeout, stack, set, n
vars == <<timeout, stack, set, n>>
Init == timeout \in Defaults /\ set = timeout /\ stack = <<>> /\ n = 0
Act(a) == PrintT(ToJson([init |-> (n = 0), pre |-> <<timeout, stack, set, n>>, act |-> a, post |-> <<timeout', stack', set', n'>>]))
Set(v) == /\ stack = <<>> /\ v /= timeout /\ timeout' = v /\ set' = v /\ UNCHANGED <<stack, n>>
          /\ Act([op |-> "set", v |-> v, kind |-> "", outcome |-> ""])
Start(k) == /\ Len(stack) < Depth /\ n < Total
            /\ LET s == Begin(timeout, stack, k, Limit) IN timeout' = s.timeout /\ stack' = s.stack
            /\ n' = n + 1 /\ UNCHANGED set
            /\ Act([op |-> "begin", v |-> timeout, kind |-> k, outcome |-> ""])
Finish(o) == /\ stack /= <<>>
             /\ LET s == End(timeout, stack) IN timeout' = s.timeout /\ stack' = s.stack
             /\ UNCHANGED <<set, n>>
             /\ Act([op |-> "end", v |-> timeout, kind |-> stack[Len(stack)].kind, outcome |-> o])
Next == (\E v \in Defaults : Set(v)) \/ (\E k \in Kinds : Start(k)) \/ (\E o \in Outcomes : Finish(o))
Spec == Init /\ [][Next]_vars
Restored == stack = <<>> => timeout = set
Limited == stack /= <<>> => timeout = Limit
Stacked == \A j \in DOMAIN stack : stack[j].old = IF j = 1 THEN set ELSE Limit
SomethingComes == \A k \in Kinds, o \in Outcomes : Results(k, o) /= {}
=============================================================================
