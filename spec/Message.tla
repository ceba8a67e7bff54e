------------------------------ MODULE Message ------------------------------
(* Messages: identity, classification, training mark and headers (C16, C17,  *)
(* C18), line ends and exception marking (C19).                              *)
(*                                                                           *)
(* Texts are sequences of character codes. A message is                      *)
(* [id, cls, mark, hdrs, body]; id is <<>> or <<text>>, hdrs a sequence of   *)
(* [n, l, v]: name, name in lower case, value. Scores are multiples of 1e-6; *)
(* pf = 1 says that a score is a little above pk * 1e-6.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Classes == {"spam", "ham", "unsure"}
Word(c) == CASE c = "spam" -> <<115, 112, 97, 109>>
             [] c = "ham" -> <<104, 97, 109>>
             [] c = "unsure" -> <<117, 110, 115, 117, 114, 101>>
Comma == <<44>>
\* @spambayes.invalid
At == <<64, 115, 112, 97, 109, 98, 97, 121, 101, 115, 46, 105, 110, 118, 97, 108, 105, 100>>

HClass == "x-spambayes-classification"
HScore == "x-spambayes-spam-probability"
HLevel == "x-spambayes-level"
HEvidence == "x-spambayes-evidence"
HId == "x-spambayes-mailid"
HTrained == "x-spambayes-trained"
HClassId == "x-spambayes-classification-id"
Own == {HClass, HScore, HLevel, HEvidence, HId, HTrained, HClassId}

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Values(h, l) == LET hs == SelectSeq(h, LAMBDA x : x.l = l) IN [j \in DOMAIN hs |-> hs[j].v]
Others(h) == SelectSeq(h, LAMBDA x : x.l \notin Own)
Has(h, l) == \E j \in DOMAIN h : h[j].l = l
FirstIdx(h, l) == CHOOSE j \in DOMAIN h : h[j].l = l /\ \A k \in 1 .. j - 1 : h[k].l /= l
First(h, l) == h[FirstIdx(h, l)].v

\* ---- classification ----
ClassOf(pk, pf) == IF pk < 200000 THEN "ham"
                   ELSE IF pk > 900000 \/ (pk = 900000 /\ pf = 1) THEN "spam" ELSE "unsure"

\* ---- numbers as text ----
Digits(q, d) == [j \in 1 .. d |-> 48 + ((q \div (10 ^ (d - j))) % 10)]
Fixed(q, d) == <<48 + q \div (10 ^ d)>> \o (IF d = 0 THEN <<>> ELSE <<46>> \o Digits(q % (10 ^ d), d))
Zeros(n) == [j \in 1 .. n |-> 48]
\* pk * 1e-6 with d digits; on a tie either neighbour.
Decimal(pk, d) ==
    IF d >= 6 THEN {Fixed(pk, 6) \o Zeros(d - 6)}
    ELSE LET u == 10 ^ (6 - d)
             q == pk \div u
             r == pk % u
         IN IF 2 * r < u THEN {Fixed(q, d)}
            ELSE IF 2 * r > u THEN {Fixed(q + 1, d)} ELSE {Fixed(q, d), Fixed(q + 1, d)}
\* " (x)" where x is the number of zeros (nines) of an extreme score; at a power of ten either.
LogOf(q) == LET x == CHOOSE n \in 0 .. 6 : q * (10 ^ n) <= 1000000 /\ q * (10 ^ (n + 1)) > 1000000
                add(n) == <<32, 40, 48 + n, 41>>
            IN IF q * (10 ^ x) = 1000000 THEN {add(x), add(x - 1)} ELSE {add(x)}
Logs(pk) == IF pk > 0 /\ pk <= 5000 THEN LogOf(pk)
            ELSE IF pk < 1000000 /\ pk >= 995000 THEN LogOf(1000000 - pk) ELSE {<<>>}
ScoreTexts(pk, d, log) == IF log = 0 THEN Decimal(pk, d) ELSE {a \o b : a \in Decimal(pk, d), b \in Logs(pk)}
Stars(pk) == [j \in 1 .. pk \div 100000 |-> 42]

\* ---- evidence: clues are [w, ind, sk]; cut in hundredths ----
Shown(clues, cut) == SelectSeq(clues, LAMBDA x : x.ind = 1 \/ x.sk <= cut * 10000 \/ x.sk >= 1000000 - cut * 10000)
RECURSIVE EvidenceFits(_, _)
EvidenceFits(v, cs) ==
    IF cs = <<>> THEN v = <<>>
    ELSE \E num \in Decimal(cs[1].sk, 2) :
           LET p == cs[1].w \o <<58, 32>> \o num
               rest == SubSeq(v, Len(p) + 1, Len(v))
           IN /\ StartsWith(v, p)
              /\ IF Len(cs) = 1 THEN rest = <<>>
                 ELSE \/ StartsWith(rest, <<59, 32>>) /\ EvidenceFits(SubSeq(rest, 3, Len(rest)), Tail(cs))
                      \/ StartsWith(rest, <<59, 10, 9>>) /\ EvidenceFits(SubSeq(rest, 4, Len(rest)), Tail(cs))

\* ---- marks ----
ToMark(c) == Word(c) \o At
Put1(h, l, mark, name) ==
    IF Has(h, l) THEN LET j == FirstIdx(h, l) IN [h EXCEPT ![j].v = mark \o Comma \o @]
    ELSE Append(h, [n |-> name, l |-> l, v |-> mark])
MarkTo(h, c) == Put1(h, "to", ToMark(c), "To")
MarkSubject(h, c) == Put1(h, "subject", Word(c), "Subject")
Strip1(v, marks) == IF \E c \in Classes : StartsWith(v, marks[c] \o Comma)
                    THEN LET c == CHOOSE c \in Classes : StartsWith(v, marks[c] \o Comma)
                         IN SubSeq(v, Len(marks[c]) + 2, Len(v))
                    ELSE v
UnmarkOne(h, l, marks) == IF ~Has(h, l) THEN h
                          ELSE LET j == FirstIdx(h, l) IN [h EXCEPT ![j].v = Strip1(@, marks)]
UnmarkSubject(h) == UnmarkOne(h, "subject", [c \in Classes |-> Word(c)])
UnmarkTo(h) == UnmarkOne(h, "to", [c \in Classes |-> ToMark(c)])
Unmark(h, subj, to) == LET a == IF subj = 1 THEN UnmarkSubject(h) ELSE h
                       IN IF to = 1 THEN UnmarkTo(a) ELSE a
\* The two marks may be put in either order (it matters if both headers are missing).
Marked(h, c, subj, to) ==
    {IF subj THEN MarkSubject(IF to THEN MarkTo(h, c) ELSE h, c) ELSE IF to THEN MarkTo(h, c) ELSE h,
     IF to THEN MarkTo(IF subj THEN MarkSubject(h, c) ELSE h, c) ELSE IF subj THEN MarkSubject(h, c) ELSE h}
Removed(h, subj, to) == Unmark(Others(h), subj, to)

\* ---- identity ----
Reserved == {<<83, 116, 97, 116, 105, 115, 116, 105, 99, 115, 32, 115, 116, 97, 114, 116, 32, 100, 97, 116, 101>>,
             <<80, 101, 114, 115, 105, 115, 116, 101, 110, 116, 32, 115, 116, 97, 116, 105, 115, 116, 105, 99, 115>>}
Fixed1(m) == m.id /= <<>> /\ m.id[1] /= <<>>
\* arg is [t, v]: t = "text", "none" or "other"
Assignable(m, arg) == arg.t = "text" /\ arg.v \notin Reserved /\ (~Fixed1(m) \/ m.id[1] = arg.v)

\* ---- line ends ----
CR == 13
LF == 10
ForceCrlf(s) == FlattenSeq([j \in DOMAIN s |->
    IF s[j] = CR THEN <<CR, LF>>
    ELSE IF s[j] = LF THEN (IF j > 1 /\ s[j - 1] = CR THEN <<>> ELSE <<CR, LF>>)
    ELSE <<s[j]>>])
CrlfOnly(s) == \A j \in DOMAIN s : /\ s[j] = CR => (j < Len(s) /\ s[j + 1] = LF)
                                   /\ s[j] = LF => (j > 1 /\ s[j - 1] = CR)
LineStart(s, j) == j = 1 \/ s[j - 1] = LF \/ (s[j - 1] = CR /\ s[j] /= LF)
EmptyLines(s) == {j \in DOMAIN s : s[j] \in {CR, LF} /\ LineStart(s, j)}
HeadEnd(s) == CHOOSE j \in EmptyLines(s) : \A k \in EmptyLines(s) : j <= k
Head1(s) == IF EmptyLines(s) = {} THEN s ELSE SubSeq(s, 1, HeadEnd(s) - 1)
Body1(s) == IF EmptyLines(s) = {} THEN <<>>
            ELSE LET j == HeadEnd(s)
                     n == IF s[j] = CR /\ j < Len(s) /\ s[j + 1] = LF THEN 2 ELSE 1
                 IN SubSeq(s, j + n, Len(s))
EndsLine(s) == s = <<>> \/ s[Len(s)] \in {CR, LF}
\* X-Spambayes-Exception
ExcName == <<88, 45, 83, 112, 97, 109, 98, 97, 121, 101, 115, 45, 69, 120, 99, 101, 112, 116, 105, 111, 110, 58>>
\* X-Spambayes-MailId
IdName == <<88, 45, 83, 112, 97, 109, 98, 97, 121, 101, 115, 45, 77, 97, 105, 108, 73, 100, 58>>
Blank(c) == c \in {9, 10, 11, 12, 13, 32, 28, 29, 30, 31, 133, 160, 8232, 8233}
Ink(s) == SelectSeq(s, LAMBDA c : ~Blank(c))
\* The header lines of an added block, which must be a sequence of lines ended by CRLF:
\* a line that does not begin with a blank starts a header.
Starts(a) == {j \in DOMAIN a : LineStart(a, j) /\ a[j] \notin {32, 9}}
NextStart(a, j) == IF \E k \in Starts(a) : k > j THEN CHOOSE k \in Starts(a) : k > j /\ \A x \in Starts(a) : x > j => k <= x
                   ELSE Len(a) + 1
Headers(a) == {SubSeq(a, j, NextStart(a, j) - 1) : j \in Starts(a)}
WhyException(s, out, details, id) ==
    LET h == Head1(s)
        b == Body1(s)
        pre == IF EndsLine(h) THEN h ELSE h \o <<CR, LF>>
        post == <<CR, LF>> \o b
        added == SubSeq(out, Len(pre) + 1, Len(out) - Len(post))
        want == 1 + (IF id = <<>> THEN 0 ELSE 1)
        hs == Headers(added)
        exc == {x \in hs : StartsWith(x, ExcName)}
        ids == {x \in hs : StartsWith(x, IdName)}
    IN IF ~StartsWith(out, pre) THEN "existing headers changed"
       ELSE IF Len(out) < Len(pre) + Len(post) \/ SubSeq(out, Len(out) - Len(post) + 1, Len(out)) /= post
       THEN "the body changed or is not separated from the headers"
       ELSE IF ~CrlfOnly(added) \/ ~EndsLine(added) \/ (EmptyLines(added) /= {}) \/ ~(1 \in Starts(added))
       THEN "the added headers are not well formed"
       ELSE IF Cardinality(Starts(added)) /= want \/ Cardinality(exc) /= 1 \/ Cardinality(ids) /= want - 1
       THEN "not exactly one header of each kind"
       ELSE IF \E x \in exc : Ink(SubSeq(x, Len(ExcName) + 1, Len(x))) /= Ink(details)
       THEN "the exception is not described"
       ELSE IF \E x \in ids : SubSeq(x, Len(IdName) + 1, Len(x)) /= <<32>> \o id \o <<CR, LF>>
       THEN "wrong identifier" ELSE ""
=============================================================================
