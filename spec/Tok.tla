-------------------------------- MODULE Tok --------------------------------
(* Reading the tokens of messages (C20): the tokens are a function of the     *)
(* message, however the reading of several messages is interleaved, and       *)
(* reading neither fails nor changes anything.                                *)
EXTENDS Integers, Sequences

\* What is known of the tokens of each message: <<>> or <<digest>>.
Unknown == <<>>
Why(seen, e) ==
    IF e.raised /= "" THEN "raised"
    ELSE IF e.bad = 1 THEN "a token is not a byte string"
    ELSE IF e.op /= "finished" THEN ""
    ELSE IF e.changed = 1 THEN "the message has changed"
    ELSE IF seen[e.m] /= Unknown /\ seen[e.m] /= <<e.digest>> THEN "other tokens than before" ELSE ""
Learn(seen, e) == IF e.op = "finished" /\ seen[e.m] = Unknown THEN [seen EXCEPT ![e.m] = <<e.digest>>] ELSE seen
=============================================================================
