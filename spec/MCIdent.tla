------------------------------ MODULE MCIdent ------------------------------
(* Identity, classification and training mark of a message: all histories.   *)
EXTENDS Message, TLC, Json
VARIABLES m, act
vars == <<m, act>>
A == <<97>>
B == <<98>>
Res == CHOOSE r \in Reserved : TRUE
Args == {[t |-> "text", v |-> A], [t |-> "text", v |-> B], [t |-> "text", v |-> Res], [t |-> "none", v |-> <<>>],
         [t |-> "other", v |-> <<>>]}
Payloads == {"missing", "a", "b", "reserved", "odd"}
ArgOf(p) == CASE p = "a" -> [t |-> "text", v |-> A] [] p = "b" -> [t |-> "text", v |-> B]
              [] p = "reserved" -> [t |-> "text", v |-> Res] [] OTHER -> [t |-> "none", v |-> <<>>]
Init == /\ \E p \in Payloads : m = [id |-> <<>>, cls |-> "none", mark |-> "none", pay |-> p]
        /\ act = [op |-> "init", t |-> "", v |-> <<>>, x |-> ""]
Assign(arg) == IF Assignable(m, arg) THEN [m EXCEPT !.id = <<arg.v>>] ELSE m
SetId == \E a \in Args : m' = Assign(a) /\ act' = [op |-> "setid", t |-> a.t, v |-> a.v, x |-> ""]
FromPayload == m' = Assign(ArgOf(m.pay)) /\ act' = [op |-> "payload", t |-> "", v |-> <<>>, x |-> ""]
Classify == \E c \in Classes : m' = [m EXCEPT !.cls = c] /\ act' = [op |-> "classify", t |-> "", v |-> <<>>, x |-> c]
Remember == \E k \in {"none", "spam", "ham"} : m' = [m EXCEPT !.mark = k] /\ act' = [op |-> "remember", t |-> "", v |-> <<>>, x |-> k]
Restore == m' = m /\ act' = [op |-> "restore", t |-> "", v |-> <<>>, x |-> ""]
Next == SetId \/ FromPayload \/ Classify \/ Remember \/ Restore
Spec == Init /\ [][Next]_vars
View == m
OnceOnly == [][m.id /= <<>> => m'.id = m.id]_vars
NeverBad == m.id \in {<<>>, <<A>>, <<B>>}
Emit == PrintT(ToJson([init |-> (m.id = <<>> /\ m.cls = "none" /\ m.mark = "none"), pre |-> m, act |-> act', post |-> m']))
=============================================================================
