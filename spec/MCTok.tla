------------------------------- MODULE MCTok -------------------------------
(* Interleaved readings of two messages by up to two readers at a time.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOpens
VARIABLES readers, opens, done
\* tokens of the model's two messages; a reader is <<message, tokens read>>
F == <<<<"a", "b", "c">>, <<"d", "b">>>>
Ms == {1, 2}
Rs == {1, 2}
vars == <<readers, opens, done>>
None == [m |-> 0, got |-> <<>>]
Init == readers = [r \in Rs |-> None] /\ opens = 0 /\ done = {}
Post == [readers |-> readers', opens |-> opens', done |-> done']
Pre == [readers |-> readers, opens |-> opens, done |-> done]
Act(a) == PrintT(ToJson([pre |-> Pre, act |-> a, post |-> Post, init |-> (opens = 0)]))
Open(r, m, fresh) == /\ opens < MaxOpens
                     /\ readers' = [readers EXCEPT ![r] = [m |-> m, got |-> <<>>]]
                     /\ opens' = opens + 1 /\ UNCHANGED done
                     /\ Act([op |-> "open", g |-> r, m |-> m, fresh |-> fresh])
Read(r, n) == /\ readers[r].m /= 0
              /\ LET f == F[readers[r].m]
                     k == Len(readers[r].got)
                 IN IF n >= 0 /\ k + n <= Len(f)
                    THEN readers' = [readers EXCEPT ![r].got = SubSeq(f, 1, k + n)] /\ UNCHANGED done
                    ELSE /\ readers' = [readers EXCEPT ![r] = None]
                         /\ done' = done \cup {<<readers[r].m, f>>}
              /\ UNCHANGED opens
              /\ Act([op |-> "read", g |-> r, m |-> readers[r].m, n |-> n])
Next == \E r \in Rs : \/ \E m \in Ms, fresh \in {0, 1} : Open(r, m, fresh)
                      \/ \E n \in {1, -1} : Read(r, n)
Spec == Init /\ [][Next]_vars
Functional == \A a, b \in done : a[1] = b[1] => a[2] = b[2]
Prefixes == \A r \in Rs : readers[r].m /= 0 =>
    LET g == readers[r].got IN g = SubSeq(F[readers[r].m], 1, Len(g))
=============================================================================
