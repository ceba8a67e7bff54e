-------------------------------- MODULE Dns --------------------------------
(* Name lookups and the process-wide default socket timeout (C24).          *)
(*                                                                          *)
(* timeout is the process-wide default; stack holds, innermost last, the    *)
(* lookups that are under way, each with the timeout it found. A lookup     *)
(* may start further lookups before it ends.                                *)
EXTENDS Integers, Sequences

Kinds == {"forward", "reverse"}
\* How the resolver can answer a lookup.
Outcomes == {"answer", "noname", "timeout", "error"}
Begin(timeout, stack, kind, limit) == [timeout |-> limit, stack |-> Append(stack, [kind |-> kind, old |-> timeout])]
End(timeout, stack) == [timeout |-> stack[Len(stack)].old, stack |-> SubSeq(stack, 1, Len(stack) - 1)]

\* What the caller of a lookup gets: "answer", "empty" or "raised". It is not said
\* what a forward lookup of an unknown name gives.
Results(kind, outcome) ==
    IF outcome = "answer" THEN {"answer"}
    ELSE IF outcome = "timeout" THEN {"empty"}
    ELSE IF outcome = "noname" THEN IF kind = "reverse" THEN {"empty"} ELSE {"empty", "raised"}
    ELSE {"empty", "raised"}
=============================================================================
