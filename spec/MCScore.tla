------------------------------ MODULE MCScore ------------------------------
(* The scoring rule itself, over all small training states: probabilities    *)
(* and indicators are in range, symmetric between spam and ham, and monotone *)
(* in the evidence. Every state is one scoring to be done by the real code.  *)
EXTENDS Score, TLC, Json
CONSTANTS MaxN, MaxTok
VARIABLES ns, nh, cs
\* cs: the classes of the tokens of the message
Init == ns \in 0 .. MaxN /\ nh \in 0 .. MaxN /\ cs = <<>>
Ord(c) == c[1] * 100 + c[2]
Next == /\ Len(cs) < MaxTok
        /\ \E s \in 0 .. ns, h \in 0 .. nh :
             /\ s + h > 0
             /\ (cs /= <<>> => Ord(cs[Len(cs)]) <= Ord(<<s, h>>))
             /\ cs' = Append(cs, <<s, h>>)
        /\ UNCHANGED <<ns, nh>>
Spec == Init /\ [][Next]_<<ns, nh, cs>>

PrC(c) == Prob(ns, nh, c[1], c[2])
Lower(p, q) == Lt(Mul(p.num, q.den), Mul(q.num, p.den))
InRange == \A j \in DOMAIN cs : LET p == PrC(cs[j]) IN p.num /= <<>> /\ Lt(p.num, p.den)
Symmetric == \A j \in DOMAIN cs : LET p == PrC(cs[j])
                                      q == Prob(nh, ns, cs[j][2], cs[j][1])
                                  IN Mul(p.num, q.den) = Mul(Sub(q.den, q.num), p.den)
\* One more spam occurrence never lowers the probability.
Monotone == \A j \in DOMAIN cs : LET c == cs[j] IN
    /\ c[1] < ns => ~Lower(Prob(ns, nh, c[1] + 1, c[2]), PrC(c))
    /\ c[2] < nh => ~Lower(PrC(c), Prob(ns, nh, c[1], c[2] + 1))
\* Only spam: above 1/2; only ham: below.
Sides == \A j \in DOMAIN cs : LET p == PrC(cs[j]) IN
    /\ cs[j][2] = 0 => Lt(p.den, MulSmall(p.num, 2))
    /\ cs[j][1] = 0 => Lt(MulSmall(p.num, 2), p.den)
Ones == [j \in DOMAIN cs |-> 1]
Indicators == cs /= <<>> =>
    LET ps == [j \in DOMAIN cs |-> PrC(cs[j])]
        s == SInd(ps, Ones)
        h == HInd(ps, Ones)
        qs == [j \in DOMAIN cs |-> Prob(nh, ns, cs[j][2], cs[j][1])]
    IN /\ Le(s, One) /\ Le(h, One)
       /\ Le(AbsDiff(s, HInd(qs, Ones)), <<0, 0, 1>>)
Emit == PrintT(ToJson([ns |-> ns, nh |-> nh, cs |-> cs']))
=============================================================================
