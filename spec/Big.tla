-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size as sequences of limbs (least first) to base   *)
(* 10^4, because the integers of TLC have 32 bits. <<>> is 0. On top of them *)
(* fixed-point numbers with 20 decimals and floating-point numbers with 24   *)
(* digits, which are all the analysis the specification of scores needs.     *)
EXTENDS Integers, Sequences, SequencesExt

B == 10000

RECURSIVE Norm(_)
Norm(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN Norm(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromInt(n \div B)

Limb(s, i) == IF i \in DOMAIN s THEN s[i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

\* Turn a sequence of (non-negative) coefficients into limbs.
Carry(cs) ==
    LET r == FoldLeft(LAMBDA acc, c : [out |-> Append(acc.out, (c + acc.cy) % B), cy |-> (c + acc.cy) \div B],
                      [out |-> <<>>, cy |-> 0], cs)
    IN Norm(r.out \o FromInt(r.cy))

Add(a, b) == Carry([i \in 1 .. MaxLen(a, b) |-> Limb(a, i) + Limb(b, i)])

\* a - b for a >= b
Sub(a, b) ==
    LET r == FoldLeft(LAMBDA acc, i : LET d == Limb(a, i) - Limb(b, i) - acc.br
                                      IN IF d < 0 THEN [out |-> Append(acc.out, d + B), br |-> 1]
                                         ELSE [out |-> Append(acc.out, d), br |-> 0],
                      [out |-> <<>>, br |-> 0], [i \in 1 .. Len(a) |-> i])
    IN Norm(r.out)

RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF a[i] = b[i] THEN LtFrom(a, b, i - 1) ELSE a[i] < b[i]
Lt(a, b) == IF Len(a) /= Len(b) THEN Len(a) < Len(b) ELSE LtFrom(a, b, Len(a))
Le(a, b) == ~Lt(b, a)
AbsDiff(a, b) == IF Lt(a, b) THEN Sub(b, a) ELSE Sub(a, b)

MulSmall(a, k) == IF k = 0 THEN <<>> ELSE Carry([i \in 1 .. Len(a) |-> a[i] * k])

Mul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE Carry([k \in 1 .. Len(a) + Len(b) - 1 |->
                  LET lo == IF k > Len(b) THEN k - Len(b) + 1 ELSE 1
                      hi == IF k < Len(a) THEN k ELSE Len(a)
                  IN FoldLeft(LAMBDA acc, j : acc + a[lo + j - 1] * b[k - (lo + j - 1) + 1], 0,
                              [j \in 1 .. hi - lo + 1 |-> j])])

\* a \div d for a small d
DivSmall(a, d) ==
    LET r == FoldLeft(LAMBDA acc, j : LET v == acc.rem * B + a[Len(a) + 1 - j]
                                      IN [out |-> <<v \div d>> \o acc.out, rem |-> v % d],
                      [out |-> <<>>, rem |-> 0], [j \in 1 .. Len(a) |-> j])
    IN Norm(r.out)

Shift(a, k) == IF a = <<>> THEN a ELSE IF k >= 0 THEN [i \in 1 .. k |-> 0] \o a
               ELSE IF Len(a) + k <= 0 THEN <<>> ELSE SubSeq(a, 1 - k, Len(a))

RECURSIVE Digit(_, _, _, _)
\* The largest q in lo..hi with q*d <= r.
Digit(r, d, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF Le(MulSmall(d, mid), r) THEN Digit(r, d, mid, hi) ELSE Digit(r, d, lo, mid - 1)

\* a \div d for any d > 0
Div(a, d) ==
    LET r == FoldLeft(LAMBDA acc, j :
                 LET v == Norm(<<a[Len(a) + 1 - j]>> \o acc.rem)
                     q == IF Lt(v, d) THEN 0 ELSE Digit(v, d, 1, B - 1)
                 IN [out |-> <<q>> \o acc.out, rem |-> IF q = 0 THEN v ELSE Sub(v, MulSmall(d, q))],
                 [out |-> <<>>, rem |-> <<>>], [j \in 1 .. Len(a) |-> j])
    IN Norm(r.out)

\* ---- fixed point: x stands for x / B^F ----
F == 5
One == Shift(<<1>>, F)
Ratio(n, d) == Div(Shift(n, F), d)
FixMul(a, b) == Shift(Mul(a, b), -F)
Ln2 == <<941, 9453, 559, 4718, 6931>>
\* An observed value in billionths.
Billionths(n) == Mul(FromInt(n), <<0, 0, 1000>>)

RECURSIVE Doublings(_, _, _)
Doublings(n, d, k) == IF Le(d, n) THEN [n |-> n, k |-> k] ELSE Doublings(MulSmall(n, 2), d, k + 1)

\* -ln(n/d) for 0 < n <= d, by ln y = 2 atanh((y-1)/(y+1)) for y in [1, 2).
NegLn(n, d) ==
    LET y == Doublings(n, d, 0)
        z == Ratio(Sub(y.n, d), Add(y.n, d))
        z2 == FixMul(z, z)
        s == FoldLeft(LAMBDA acc, j : [sum |-> Add(acc.sum, DivSmall(acc.term, 2 * j - 1)),
                                       term |-> FixMul(acc.term, z2)],
                      [sum |-> <<>>, term |-> z], [j \in 1 .. 18 |-> j])
        lny == MulSmall(s.sum, 2)
        kl == MulSmall(Ln2, y.k)
    IN IF Lt(kl, lny) THEN <<>> ELSE Sub(kl, lny)

\* ---- floating point: m * B^e ----
P == 6
Trunc(m, e) == IF Len(m) <= P THEN [m |-> m, e |-> e]
               ELSE [m |-> SubSeq(m, Len(m) - P + 1, Len(m)), e |-> e + Len(m) - P]
FMul(a, b) == Trunc(Mul(a.m, b.m), a.e + b.e)
FDivSmall(a, d) == Trunc(DivSmall(Shift(a.m, 2), d), a.e - 2)
FRatio(n, d) == LET k == 8 + Len(d) - Len(n)
                    j == IF k > 0 THEN k ELSE 0
                IN Trunc(Div(Shift(n, j), d), -j)
FromFix(x) == Trunc(x, -F)
FOne == [m |-> <<1>>, e |-> 0]
ToFix(f) == Shift(f.m, f.e + F)
RECURSIVE FPow(_, _)
FPow(f, n) == IF n = 0 THEN FOne
              ELSE IF n % 2 = 1 THEN FMul(f, FPow(f, n - 1))
              ELSE LET h == FPow(f, n \div 2) IN FMul(h, h)
=============================================================================
