------------------------------- MODULE MCText -------------------------------
(* Line ends over all short texts: forcing CRLF is idempotent and changes    *)
(* nothing but line ends; the texts are emitted for the real code.           *)
EXTENDS Message, TLC, Json
CONSTANTS MaxLen
VARIABLE s
Alphabet == {97, 58, CR, LF}
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Idempotent == ForceCrlf(ForceCrlf(s)) = ForceCrlf(s)
OnlyCrlf == CrlfOnly(ForceCrlf(s)) /\ (CrlfOnly(s) => ForceCrlf(s) = s)
Keeps == SelectSeq(ForceCrlf(s), LAMBDA c : c \notin {CR, LF}) = SelectSeq(s, LAMBDA c : c \notin {CR, LF})
\* Head and body cover the text, separated by the first empty line.
Splits == LET h == Head1(s)
              b == Body1(s)
              gap == Len(s) - Len(h) - Len(b)
          IN IF EmptyLines(s) = {} THEN h = s /\ b = <<>>
             ELSE gap \in {1, 2} /\ EmptyLines(h) = {} /\ EndsLine(h)
                  /\ SubSeq(s, Len(h) + 1, Len(h) + gap) \in {<<CR>>, <<LF>>, <<CR, LF>>}
Emit == PrintT(ToJson([text |-> s']))
=============================================================================
