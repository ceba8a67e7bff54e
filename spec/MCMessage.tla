----------------------------- MODULE MCMessage -----------------------------
(* Adding and removing headers and marks on small messages, to a bounded     *)
(* depth, with the properties that removing restores the message.            *)
EXTENDS Message, TLC, Json
CONSTANTS Depth
VARIABLES h, n, base, act
vars == <<h, n, base, act>>
X == <<120>>
Hd(l, v) == [n |-> IF l = "subject" THEN "Subject" ELSE IF l = "to" THEN "To" ELSE l, l |-> l, v |-> v]
Subjects == {<<>>, <<X>>, <<Word("spam") \o Comma \o X>>, <<Word("ham") \o Comma \o Word("spam") \o Comma \o X>>,
             <<Word("spam")>>, <<X, X>>}
Tos == {<<>>, <<X>>, <<ToMark("spam") \o Comma \o X>>, <<ToMark("ham")>>}
Inits == {[j \in DOMAIN s |-> Hd("subject", s[j])] \o [j \in DOMAIN t |-> Hd("to", t[j])] : s \in Subjects, t \in Tos}
Init == h \in Inits /\ n = 0 /\ base = h /\ act = [op |-> "init", c |-> "ham", subj |-> 0, to |-> 0, full |-> 0]
\* Values of inserted headers do not matter here.
Inserted(full) == <<Hd(HClass, X)>> \o (IF full = 1 THEN <<Hd(HScore, X), Hd(HLevel, X), Hd(HEvidence, X), Hd(HId, X)>> ELSE <<>>)
Add == \E c \in Classes, s \in 0 .. 1, t \in 0 .. 1, f \in 0 .. 1 :
         /\ h' = (CHOOSE x \in Marked(h \o Inserted(f), c, s = 1, t = 1) : TRUE)
         /\ act' = [op |-> "add", c |-> c, subj |-> s, to |-> t, full |-> f]
         /\ base' = h
Rem == \E s \in 0 .. 1, t \in 0 .. 1 :
         /\ h' = Removed(h, s, t) /\ UNCHANGED base
         /\ act' = [op |-> "remove", c |-> "ham", subj |-> s, to |-> t, full |-> 0]
Next == n < Depth /\ n' = n + 1 /\ (Add \/ Rem)
Spec == Init /\ [][Next]_vars
View == <<h, n>>
\* Everything of ours is gone after a removal, nothing else is.
Clean == [][act'.op = "remove" => /\ \A j \in DOMAIN h' : h'[j].l \notin Own
                                  /\ Len(h') = Len(Others(h))
                                  /\ (act'.subj = 0 => Values(h', "subject") = Values(h, "subject"))
                                  /\ (act'.to = 0 => Values(h', "to") = Values(h, "to"))]_vars
\* A removal undoes one insertion, for every switch that matches what was inserted.
RoundTrip == \A c \in Classes, s \in 0 .. 1, t \in 0 .. 1 :
    LET o == Others(h) IN
    (Has(o, "subject") /\ Has(o, "to")) => \A x \in Marked(o \o Inserted(1), c, s = 1, t = 1) : Removed(x, s, t) = o
Emit == PrintT(ToJson([init |-> n = 0, pre |-> <<h, n>>, act |-> act', post |-> <<h', n'>>]))
=============================================================================
