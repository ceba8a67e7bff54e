------------------------------- MODULE Score -------------------------------
(* Probabilities, clue selection and the chi-squared combination (C04, C05), *)
(* with exact rational probabilities. A class is a pair <<s, h>> of counts   *)
(* in a state with ns spam and nh ham messages.                              *)
EXTENDS Big, FiniteSets

MaxClues == 150

\* ---- the probability of a token: num/den ----
\* p = (s/ns) / (h/nh + s/ns), f = (0.45*0.5 + n*p) / (0.45 + n), n = s + h
Prob(ns, nh, s, h) ==
    LET n1 == IF ns = 0 THEN 1 ELSE ns
        n2 == IF nh = 0 THEN 1 ELSE nh
        a == Mul(FromInt(s), FromInt(n2))
        b == Add(a, Mul(FromInt(h), FromInt(n1)))
        n == s + h
    IN [num |-> Add(MulSmall(b, 9), Mul(a, FromInt(40 * n))), den |-> Mul(b, FromInt(18 + 40 * n))]

\* |2*num - den| / (2*den) is the distance from 1/2
Off(p) == AbsDiff(MulSmall(p.num, 2), p.den)
\* distance < 1/10, distance = 1/10
Weak(p) == Lt(MulSmall(Off(p), 5), p.den)
Borderline(p) == MulSmall(Off(p), 5) = p.den
Distance(p) == Ratio(Off(p), MulSmall(p.den, 2))
Fixed(p) == Ratio(p.num, p.den)

\* ---- the chi-squared indicator ----
\* For k classes with probabilities n_c/d_c occurring cnt_c times,
\* 1 - sum over i < N of exp(-M) M^i / i!, with exp(-M) the product of the
\* probabilities and N the number of clues.
UpperTail(ratios, cnts) ==
    LET k == Len(ratios)
        idx == [j \in 1 .. k |-> j]
        N == FoldLeft(LAMBDA acc, j : acc + cnts[j], 0, idx)
        M == FoldLeft(LAMBDA acc, j : Add(acc, MulSmall(NegLn(ratios[j].num, ratios[j].den), cnts[j])), <<>>, idx)
        Mf == FromFix(M)
        prod == FoldLeft(LAMBDA acc, j : FMul(acc, FPow(FRatio(ratios[j].num, ratios[j].den), cnts[j])), FOne, idx)
        r == FoldLeft(LAMBDA acc, i : LET t == FDivSmall(FMul(acc.term, Mf), i)
                                      IN [sum |-> Add(acc.sum, ToFix(t)), term |-> t],
                      [sum |-> ToFix(prod), term |-> prod], [i \in 1 .. N - 1 |-> i])
    IN IF Lt(r.sum, One) THEN r.sum ELSE One
Complement(p) == [num |-> Sub(p.den, p.num), den |-> p.den]
\* S looks at 1-p, H at p.
SInd(probs, cnts) == Sub(One, UpperTail([j \in DOMAIN probs |-> Complement(probs[j])], cnts))
HInd(probs, cnts) == Sub(One, UpperTail(probs, cnts))
=============================================================================
