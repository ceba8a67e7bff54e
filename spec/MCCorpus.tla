------------------------------ MODULE MCCorpus ------------------------------
(* All histories of adding, replacing, removing and moving messages over one *)
(* or two corpora. Object o has key KeyOf(o); objects 1..2n for n keys, two  *)
(* versions of every key. trained is the bag of what a trainer on corpus 1   *)
(* (spam) and one on corpus 2 (ham) have taught.                             *)
EXTENDS Corpus, TLC, Json
CONSTANTS NKeys, Versions, Corpora, Limit, Replace
VARIABLES cs, trained, act
Keys == 1 .. NKeys
Objs == 1 .. NKeys * Versions
KeyOf(o) == ((o - 1) % NKeys) + 1
vars == <<cs, trained, act>>
Init == cs = [c \in 1 .. Corpora |-> <<>>] /\ trained = [c \in 1 .. Corpora |-> {}]
        /\ act = [op |-> "init", c |-> 0, o |-> 0, c2 |-> 0]
Add(c, o) ==
    /\ (~Replace => KeyOf(o) \notin KeysOf(cs[c]) /\ o \notin trained[c])
    /\ cs' = [cs EXCEPT ![c] = Put(@, KeyOf(o), o, 0, Limit)]
    /\ trained' = [trained EXCEPT ![c] = @ \cup {o}]
    /\ act' = [op |-> "add", c |-> c, o |-> o, c2 |-> 0]
Remove(c, o) ==
    /\ KeyOf(o) \in KeysOf(cs[c])
    /\ (~Replace => EntryOf(cs[c], KeyOf(o)).o = o)
    /\ cs' = [cs EXCEPT ![c] = Del(@, KeyOf(o))]
    /\ trained' = [trained EXCEPT ![c] = @ \ {o}]
    /\ act' = [op |-> "remove", c |-> c, o |-> o, c2 |-> 0]
RemoveAbsent(c, o) ==
    /\ Replace /\ KeyOf(o) \notin KeysOf(cs[c]) /\ UNCHANGED <<cs, trained>>
    /\ act' = [op |-> "remove", c |-> c, o |-> o, c2 |-> 0]
Move(c, o, d) ==
    /\ c /= d /\ KeyOf(o) \in KeysOf(cs[c]) /\ EntryOf(cs[c], KeyOf(o)).o = o
    /\ KeyOf(o) \notin KeysOf(cs[d]) /\ o \notin trained[d]
    /\ cs' = [cs EXCEPT ![c] = Del(@, KeyOf(o)), ![d] = Put(@, KeyOf(o), o, 0, Limit)]
    /\ trained' = [trained EXCEPT ![c] = @ \ {o}, ![d] = @ \cup {o}]
    /\ act' = [op |-> "move", c |-> c, o |-> o, c2 |-> d]
Next == \E c \in 1 .. Corpora, o \in Objs :
          \/ Add(c, o) \/ Remove(c, o) \/ RemoveAbsent(c, o) \/ \E d \in 1 .. Corpora : Move(c, o, d)
Spec == Init /\ [][Next]_vars
View == <<cs, trained>>

Bounded == \A c \in 1 .. Corpora : Limit > 0 => Len(cs[c]) <= Limit
KeysUnique == \A c \in 1 .. Corpora : Cardinality(KeysOf(cs[c])) = Len(cs[c])
\* Without evictions and replacements the trained messages are those in the corpus.
TrainedAreStored == (Limit = 0 /\ ~Replace) => \A c \in 1 .. Corpora : trained[c] = {cs[c][j].o : j \in DOMAIN cs[c]}
\* Who was added earlier leaves earlier; the others keep their order.
FirstInFirstOut == [][\A c \in 1 .. Corpora :
    LET a == cs[c]
        b == cs'[c]
        lost == {j \in DOMAIN a : a[j].k \notin KeysOf(b)}
    IN act'.op = "add" /\ lost /= {} => lost = {1} /\ Len(a) = Limit]_vars
OrderKept == [][\A c \in 1 .. Corpora : \A i, j \in DOMAIN cs[c] :
    (i < j /\ {cs[c][i].k, cs[c][j].k} \subseteq KeysOf(cs'[c])) =>
      \E x, y \in DOMAIN cs'[c] : x < y /\ cs'[c][x].k = cs[c][i].k /\ cs'[c][y].k = cs[c][j].k]_vars
NewestStays == [][act'.op = "add" => \E j \in DOMAIN cs'[act'.c] : cs'[act'.c][j].o = act'.o]_vars
Small(es) == [j \in DOMAIN es |-> <<es[j].k, es[j].o>>]
Emit == PrintT(ToJson([init |-> (\A c \in 1 .. Corpora : cs[c] = <<>> /\ trained[c] = {}),
                       pre |-> <<[c \in DOMAIN cs |-> Small(cs[c])], trained>>, act |-> act',
                       post |-> <<[c \in DOMAIN cs |-> Small(cs'[c])], trained'>>]))
=============================================================================
