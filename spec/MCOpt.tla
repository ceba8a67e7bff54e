------------------------------- MODULE MCOpt -------------------------------
(* Small inputs of the optional kinds of tokens and what must be true of     *)
(* them. Kind:                                                               *)
(*   url       what is behind http://                                        *)
(*   received  chunks of a Received line                                     *)
(*   people    addresses of recipients                                       *)
(*   rows      words of a body, short and long                               *)
EXTENDS Opt, TLC, Json
CONSTANTS Kind, MaxLen
VARIABLE s

Alphabet ==
    CASE Kind = "url" -> {<<37, 52, 49>>, <<37>>, <<97>>, <<64>>, <<58>>, <<56, 49>>, <<49, 46, 50>>, <<47>>, <<37, 52, 48>>, <<52, 46>>}    \* %41  %  a  @  :  81  1.2  /  %40  4.
      [] Kind = "received" -> {<<102, 114, 111, 109, 32>>, <<97, 46, 98, 99>>, <<32>>, <<40>>, <<41>>, <<91, 49, 46, 50, 46, 51, 46, 52, 93>>, <<100, 101, 32, 102, 103>>, <<57>>}    \* from   a.bc     (  )  [1.2.3.4]  de fg  9
      [] Kind = "people" -> {<<97, 98, 64, 99, 46, 100, 101>>, <<97, 98, 64, 120, 46, 100, 101>>, <<97, 99, 64, 99, 46, 100, 101>>, <<>>, <<97, 98>>}    \* ab@c.de  ab@x.de  ac@c.de    ab
      [] Kind = "rows" -> {<<97>>, <<98, 99>>, <<100, 101, 102>>, <<60, 98, 62>>}    \* a  bc  def  <b>
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s

Whole == Flat(s)
Has(seq, x) == \E j \in DOMAIN seq : seq[j] = x
\* Taking a URL apart without escapes only adds tokens, and escapes do not
\* change what its parts are.
Picked == Kind = "url" =>
    LET cs == PickedClues(<<104, 116, 116, 112>>, Whole, 0, [forward |-> <<>>])    \* http
        plain == Unquoted(Whole, 1)
    IN /\ \A x \in SetOf(UrlClues(<<104, 116, 116, 112>>, plain)) : Has(cs, x)    \* http
       /\ Has(cs, <<117, 114, 108, 58, 104, 97, 115, 32, 117, 115, 101, 114>>) <=> \E p \in DOMAIN plain : plain[p] = 64 /\ \A q \in 1 .. p : plain[q] \notin {47, 63, 35}    \* url:has user
       /\ Len(Unquoted(Whole, 1)) = Len(Whole) - 2 * Len(SelectSeq(Escapes(Whole, 1), LAMBDA e : HexValue(e[2]) < 16 /\ HexValue(e[3]) < 16))
            \/ \E p \in DOMAIN Whole : Whole[p] = 37 /\ p < Len(Whole) /\ (Whole[p + 1] = 37 \/ (p + 2 <= Len(Whole) /\ Whole[p + 2] = 37))
       /\ ~(Has(cs, <<117, 114, 108, 58, 105, 112, 32, 97, 100, 100, 114>>) /\ \A p \in DOMAIN plain : ~IsDigit(plain[p]))    \* url:ip addr
\* The host's tokens are its endings, the address's its beginnings, and
\* white space around a line does not matter.
Hops == Kind = "received" =>
    LET t == Clean(Whole)
    IN /\ Hop(Whole) = Hop(<<32>> \o Whole \o <<10, 32>>)
       /\ \A x \in Hop(Whole) : x /= <<>> /\ \E p \in DOMAIN t : At(t, p, x)
       /\ Hosts(t) /= <<>> => Hosts(t) \in Hop(Whole)
       /\ Addrs(t) /= <<>> => Addrs(t) = <<49, 46, 50, 46, 51, 46, 52>> /\ <<49>> \in Hop(Whole)    \* 1.2.3.4  1
\* What all have in common is a beginning of each, and nothing longer is.
Together == Kind = "people" /\ s /= <<>> =>
    LET k == Common(s, 0)
    IN /\ \A j \in DOMAIN s : Len(s[j]) >= k /\ SubSeq(s[j], 1, k) = SubSeq(s[1], 1, k)
       /\ ~(\A j \in DOMAIN s : Len(s[j]) > k /\ SubSeq(s[j], 1, k + 1) = SubSeq(s[1], 1, k + 1))
\* The longest row is one of the rows.
InRow == Kind = "rows" =>
    LET n == Rows(s, 1, 0, 0)
        row(a, b) == b <= Len(s) /\ \A j \in a .. b : Len(s[j]) < 3
    IN /\ n > 0 => \E a \in DOMAIN s : row(a, a + n - 1)
       /\ \A a \in DOMAIN s : \A b \in a .. Len(s) : row(a, b) => b - a + 1 <= n
Emit == PrintT(ToJson([kind |-> Kind, s |-> s']))
=============================================================================
