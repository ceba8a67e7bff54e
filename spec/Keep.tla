-------------------------------- MODULE Keep --------------------------------
(* Keeping messages (C29). A message is read, passed on, marked with the      *)
(* verdict and cleaned, stored in file corpora that are opened again, and     *)
(* trained and untrained on the way; the classifier is saved and loaded.      *)
(*                                                                            *)
(* Of a message: whether the object at hand carries marks, in which corpus it *)
(* is stored (0 none, 1 ham, 2 spam, 3 not watched by a trainer), whether the *)
(* stored one has marks, and how often it was trained directly as ham, spam.  *)
EXTENDS Integers, Sequences

Fresh == [marked |-> 0, where |-> 0, stored |-> 0, h |-> 0, s |-> 0]
\* What the classifier has been trained on: for every message, as ham and as spam.
Training(st) == [m \in DOMAIN st |-> <<st[m].h + (IF st[m].where = 1 THEN 1 ELSE 0),
                                       st[m].s + (IF st[m].where = 2 THEN 1 ELSE 0)>>]
Can(x, e) ==
    CASE e.op \in {"read", "score", "restart"} -> TRUE
      [] e.op = "pass" -> TRUE
      [] e.op = "mark" -> x.marked = 0 /\ x.where = 0
      [] e.op = "clean" -> x.marked = 1 /\ x.where = 0
      [] e.op = "put" -> x.where = 0 /\ (e.n = 3 \/ x.marked = 0)
      [] e.op \in {"get", "take"} -> x.where /= 0
      [] e.op = "learn" -> x.marked = 0
      [] e.op = "unlearn" -> x.marked = 0 /\ (IF e.n = 1 THEN x.h ELSE x.s) > 0
      [] OTHER -> FALSE
After(x, e) ==
    CASE e.op = "read" -> [x EXCEPT !.marked = 0]
      [] e.op = "mark" -> [x EXCEPT !.marked = 1]
      [] e.op = "clean" -> [x EXCEPT !.marked = 0]
      [] e.op = "put" -> [x EXCEPT !.where = e.n, !.stored = x.marked]
      [] e.op = "get" -> [x EXCEPT !.marked = x.stored]
      [] e.op = "take" -> [x EXCEPT !.marked = x.stored, !.where = 0, !.stored = 0]
      [] e.op = "learn" -> IF e.n = 1 THEN [x EXCEPT !.h = @ + 1] ELSE [x EXCEPT !.s = @ + 1]
      [] e.op = "unlearn" -> IF e.n = 1 THEN [x EXCEPT !.h = @ - 1] ELSE [x EXCEPT !.s = @ - 1]
      [] OTHER -> x
\* Restarting leaves every message with the object at hand that it had.
=============================================================================
