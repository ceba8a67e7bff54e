-------------------------------- MODULE Opt --------------------------------
(* The kinds of tokens that are off by default (C28). o has a field for each *)
(* option, 1 if it is on.                                                    *)
EXTENDS Head

RECURSIVE Floor2(_, _)
\* the largest k with 2^k <= n
Floor2(n, k) == IF n < 2 ^ (k + 1) THEN k ELSE Floor2(n, k + 1)
IsLow(c) == c >= 97 /\ c <= 122

\* ---- header lines ----
Named(m, name) == SelectSeq(m.heads, LAMBDA h : LowerText(h.name) = name)
TextsOf(m, name) == LET hs == Named(m, name) IN [k \in DOMAIN hs |-> hs[k].text]
Absent(m) == {One(<<110, 111, 104, 101, 97, 100, 101, 114, 58>> \o n) : n \in {s \in SafeNames : Named(m, s) = <<>>}}    \* noheader:

\* Received: what is in parentheses, the first host behind "from ", the first
\* bracketed address
Clean(x) == Joined(Chunks(LowerText(x)), <<32>>)
RECURSIVE RunEnd(_, _, _)
\* behind the characters of a class from p on: 1 host names, 2 letters and blanks, 3 digits and dots
Class(k, c) == CASE k = 1 -> IsLow(c) \/ IsDigit(c) \/ c \in {46, 95, 45} [] k = 2 -> IsLow(c) \/ c = 32 [] k = 3 -> IsDigit(c) \/ c = 46
RunEnd(k, t, p) == IF p > Len(t) \/ ~Class(k, t[p]) THEN p ELSE RunEnd(k, t, p + 1)
Complaint(t, p) == LET e == RunEnd(2, t, p + 1)
                   IN t[p] = 40 /\ e > p + 1 /\ e <= Len(t) /\ t[e] = 41 /\ IsLow(t[p + 1]) /\ IsLow(t[e - 1])
                      /\ \E j \in p + 1 .. e - 1 : t[j] = 32
Complaints(t) == {SubSeq(t, p, RunEnd(2, t, p + 1)) : p \in {q \in DOMAIN t : Complaint(t, q)}}
HostAt(t, p) == At(t, p, <<102, 114, 111, 109, 32>>)    \* from 
                /\ LET e == RunEnd(1, t, p + 5) IN e > p + 6 /\ IsLow(t[e - 1]) /\ e <= Len(t) /\ (t[e] = 41 \/ IsSpace(t[e]))
Hosts(t) == LET c == {p \in DOMAIN t : HostAt(t, p)}
            IN IF c = {} THEN <<>> ELSE LET p == Least(c) IN SubSeq(t, p + 5, RunEnd(1, t, p + 5) - 1)
Quad(x) == LET ps == Parts(x, {46})
           IN Len(ps) = 4 /\ \A k \in 1 .. 4 : Len(ps[k]) \in 1 .. 3 /\ \A j \in DOMAIN ps[k] : IsDigit(ps[k][j])
AddrAt(t, p) == t[p] \in {40, 91} /\ LET e == RunEnd(3, t, p + 1) IN e <= Len(t) /\ t[e] \in {41, 93} /\ Quad(SubSeq(t, p + 1, e - 1))
Addrs(t) == LET c == {p \in DOMAIN t : AddrAt(t, p)}
            IN IF c = {} THEN <<>> ELSE LET p == Least(c) IN SubSeq(t, p + 1, RunEnd(3, t, p + 1) - 1)
Dotted(ps, a, b) == Joined(SubSeq(ps, a, b), <<46>>)
Hop(x) ==
    Let(Clean(x), LAMBDA t :
        Complaints(t)
        \cup (IF Hosts(t) = <<>> THEN {} ELSE LET ps == Parts(Hosts(t), {46}) IN {Dotted(ps, k, Len(ps)) : k \in DOMAIN ps})
        \cup (IF Addrs(t) = <<>> THEN {} ELSE LET ps == Parts(Addrs(t), {46}) IN {Dotted(ps, 1, k) : k \in DOMAIN ps}))
Received(m) == {One(<<114, 101, 99, 101, 105, 118, 101, 100, 58>> \o Bytes(x)) : x \in UNION {Hop(x) : x \in SetOf(TextsOf(m, <<114, 101, 99, 101, 105, 118, 101, 100>>))}}    \* received:  received

\* The same beginning or end of all recipients' addresses.
Everyone(m) == [k \in 1 .. Len(m.to.boxes) + Len(m.cc.boxes) |->
                  LowerText((m.to.boxes \o m.cc.boxes)[k].addr)]
Backwards(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
Agree(as, k) == \A j \in DOMAIN as : Len(as[j]) >= k /\ SubSeq(as[j], 1, k) = SubSeq(as[1], 1, k)
RECURSIVE Common(_, _)
Common(as, k) == IF k < Len(as[1]) /\ Agree(as, k + 1) THEN Common(as, k + 1) ELSE k
Shared(as, prefix, most) ==
    IF Len(as) <= 1 THEN {}
    ELSE Let(Common(as, 0), LAMBDA k :
             IF k = 0 THEN {}
             ELSE LET score == (k * Len(as)) \div 10
                  IN {One(prefix \o (IF score > most THEN <<98, 105, 103>> ELSE Number(score)))})    \* big
SameStart(m) == Shared(Everyone(m), <<112, 102, 120, 108, 101, 110, 58>>, 3)    \* pfxlen:
SameEnd(m) == Let(Everyone(m), LAMBDA as : Shared([k \in DOMAIN as |-> Backwards(as[k])], <<115, 102, 120, 108, 101, 110, 58>>, 5))    \* sfxlen:

\* Habeas: nine lines of fixed text
Haiku == <<<<119, 105, 110, 116, 101, 114, 32, 105, 110, 116, 111, 32, 115, 112, 114, 105, 110, 103>>,    \* winter into spring
           <<98, 114, 105, 103, 104, 116, 108, 121, 32, 97, 110, 116, 105, 99, 105, 112, 97, 116, 101, 100>>,    \* brightly anticipated
           <<108, 105, 107, 101, 32, 72, 97, 98, 101, 97, 115, 32, 83, 87, 69, 32, 40, 116, 109, 41>>,    \* like Habeas SWE (tm)
           <<67, 111, 112, 121, 114, 105, 103, 104, 116, 32, 50, 48, 48, 50, 32, 72, 97, 98, 101, 97, 115, 32, 40, 116, 109, 41>>,    \* Copyright 2002 Habeas (tm)
           <<83, 101, 110, 100, 101, 114, 32, 87, 97, 114, 114, 97, 110, 116, 101, 100, 32, 69, 109, 97, 105, 108, 32, 40, 83, 87, 69, 41, 32, 40, 116, 109, 41, 46, 32, 84, 104, 101, 32, 115, 101, 110, 100, 101, 114, 32, 111, 102, 32, 116, 104, 105, 115>>,    \* Sender Warranted Email (SWE) (tm). The sender of this
           <<101, 109, 97, 105, 108, 32, 105, 110, 32, 101, 120, 99, 104, 97, 110, 103, 101, 32, 102, 111, 114, 32, 97, 32, 108, 105, 99, 101, 110, 115, 101, 32, 102, 111, 114, 32, 116, 104, 105, 115, 32, 72, 97, 98, 101, 97, 115>>,    \* email in exchange for a license for this Habeas
           <<119, 97, 114, 114, 97, 110, 116, 32, 109, 97, 114, 107, 32, 119, 97, 114, 114, 97, 110, 116, 115, 32, 116, 104, 97, 116, 32, 116, 104, 105, 115, 32, 105, 115, 32, 97, 32, 72, 97, 98, 101, 97, 115, 32, 67, 111, 109, 112, 108, 105, 97, 110, 116>>,    \* warrant mark warrants that this is a Habeas Compliant
           <<77, 101, 115, 115, 97, 103, 101, 32, 40, 72, 67, 77, 41, 32, 97, 110, 100, 32, 110, 111, 116, 32, 115, 112, 97, 109, 46, 32, 80, 108, 101, 97, 115, 101, 32, 114, 101, 112, 111, 114, 116, 32, 117, 115, 101, 32, 111, 102, 32, 116, 104, 105, 115>>,    \* Message (HCM) and not spam. Please report use of this
           <<109, 97, 114, 107, 32, 105, 110, 32, 115, 112, 97, 109, 32, 116, 111, 32, 60, 104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 104, 97, 98, 101, 97, 115, 46, 99, 111, 109, 47, 114, 101, 112, 111, 114, 116, 47, 62, 46>>    \* mark in spam to <http://www.habeas.com/report/>.
         >>
LineOf(m, k) == TextsOf(m, <<120, 45, 104, 97, 98, 101, 97, 115, 45, 115, 119, 101, 45>> \o Number(k))    \* x-habeas-swe-
Present(m) == {k \in 1 .. 9 : LineOf(m, k) /= <<>>}
Right(m) == {k \in Present(m) : LineOf(m, k)[1] = Haiku[k]}
Habeas(m, reduced) ==
    IF reduced = 0
    THEN {One(<<120, 45, 104, 97, 98, 101, 97, 115, 45, 115, 119, 101, 45>> \o Number(k) \o (IF k \in Right(m) THEN <<58, 118, 97, 108, 105, 100>> ELSE <<58, 105, 110, 118, 97, 108, 105, 100>>)) : k \in Present(m)}    \* x-habeas-swe-  :valid  :invalid
    ELSE IF Present(m) /= Right(m) THEN {One(<<120, 45, 104, 97, 98, 101, 97, 115, 45, 115, 119, 101, 58, 105, 110, 118, 97, 108, 105, 100>>)}    \* x-habeas-swe:invalid
    ELSE IF Cardinality(Right(m)) = 9 THEN {One(<<120, 45, 104, 97, 98, 101, 97, 115, 45, 115, 119, 101, 58, 118, 97, 108, 105, 100>>)} ELSE {}    \* x-habeas-swe:valid

\* Posting hosts of news: the names and addresses are looked up.
\* dns: [name, addrs] forward and [addr, name] backward; an address is four octets
Net(a, n) == Joined([k \in 1 .. 4 |-> Number(IF k <= n THEN a[k] ELSE 0)], <<46>>) \o <<47>> \o Number(8 * n)
Nets(prefix, a) == {One(prefix \o <<58>> \o Net(a, n)) : n \in 1 .. 4}
TopTwo(n) == LET ps == Parts(n, {46}) IN Dotted(ps, IF Len(ps) > 1 THEN Len(ps) - 1 ELSE 1, Len(ps))
Host(n) == {One(<<110, 110, 116, 112, 45, 104, 111, 115, 116, 45, 110, 97, 109, 101, 58>> \o n), One(<<110, 110, 116, 112, 45, 104, 111, 115, 116, 45, 100, 111, 109, 97, 105, 110, 58>> \o TopTwo(n))}    \* nntp-host-name:  nntp-host-domain:
Backward(m, a) == {d.name : d \in {x \in SetOf(m.reverse) : x.addr = a}}
Forward(m, n) == UNION {SetOf(d.addrs) : d \in {x \in SetOf(m.forward) : x.name = n}}
HasReverse == One(<<110, 110, 116, 112, 45, 104, 111, 115, 116, 45, 105, 112, 58, 104, 97, 115, 45, 114, 101, 118, 101, 114, 115, 101>>)    \* nntp-host-ip:has-reverse
News(m) == UNION {IF p.addr /= <<>>
                  THEN Nets(<<110, 110, 116, 112, 45, 104, 111, 115, 116>>, p.addr)    \* nntp-host
                       \cup (IF Backward(m, p.addr) = {} THEN {} ELSE {HasReverse} \cup UNION {Host(n) : n \in Backward(m, p.addr)})
                  ELSE Host(p.name) \cup UNION {Nets(<<110, 110, 116, 112, 45, 104, 111, 115, 116, 45, 105, 112>>, a) : a \in Forward(m, p.name)}    \* nntp-host-ip
                       \cup (IF \E a \in Forward(m, p.name) : p.name \in Backward(m, a) THEN {HasReverse} ELSE {})
                  : p \in SetOf(m.posting)}

\* ---- bodies ----
Blotted(t) == [j \in DOMAIN t |-> IF (t[j] >= 32 /\ t[j] < 127) \/ t[j] \in {9, 10, 13} THEN t[j] ELSE 63]

\* URLs taken apart: guts is what is behind ://
HexValue(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 16
Escape(t, p) == t[p] = 37 /\ p + 2 <= Len(t)
RECURSIVE Escapes(_, _), Unquoted(_, _)
Escapes(t, p) == IF p > Len(t) THEN <<>> ELSE IF Escape(t, p) THEN <<SubSeq(t, p, p + 2)>> \o Escapes(t, p + 3) ELSE Escapes(t, p + 1)
Unquoted(t, p) ==
    IF p > Len(t) THEN <<>>
    ELSE IF Escape(t, p) /\ HexValue(t[p + 1]) < 16 /\ HexValue(t[p + 2]) < 16
         THEN <<16 * HexValue(t[p + 1]) + HexValue(t[p + 2])>> \o Unquoted(t, p + 3)
         ELSE <<t[p]>> \o Unquoted(t, p + 1)
LastOf(s, c) == LET x == {p \in DOMAIN s : s[p] = c} IN IF x = {} THEN 0 ELSE CHOOSE p \in x : \A q \in x : q <= p
Site(guts) == LET x == {p \in DOMAIN guts : guts[p] \in {47, 63, 35}} IN IF x = {} THEN guts ELSE SubSeq(guts, 1, Least(x) - 1)
HostPort(site) == SubSeq(site, LastOf(site, 64) + 1, Len(site))
Port(hp) == LET c == LastOf(hp, 58)
                d == SubSeq(hp, c + 1, Len(hp))
            IN IF c > 0 /\ \A j \in DOMAIN d : IsDigit(d[j]) THEN [host |-> SubSeq(hp, 1, c - 1), port |-> d] ELSE [host |-> hp, port |-> <<>>]
Digits(t) == Len(SelectSeq(t, IsDigit))
\* four numbers, with or without dots
IsIp(h) == /\ h /= <<>> /\ IsDigit(h[1]) /\ Digits(h) >= 4
           /\ \A j \in DOMAIN h : IsDigit(h[j]) \/ (h[j] = 46 /\ j > 1 /\ IsDigit(h[j - 1]))
           /\ Len(Runs(h, IsDigit)) <= 4
\* what the resolver says of the host, in place of the order of its addresses
LookedUp(as) == IF as = {} THEN <<<<117, 114, 108, 45, 105, 112, 58, 108, 111, 111, 107, 117, 112, 32, 101, 114, 114, 111, 114>>>>    \* url-ip:lookup error
                ELSE SetToSeq({<<117, 114, 108, 45, 105, 112, 58>> \o Net(a, n) : a \in as, n \in 1 .. 4})    \* url-ip:
PickedClues(proto, guts, lookup, m) ==
    LET es == Escapes(guts, 1)
        plain == Unquoted(guts, 1)
        site == Site(plain)
        hp == Port(HostPort(site))
    IN <<<<112, 114, 111, 116, 111, 58>> \o proto>>    \* proto:
       \o (IF es = <<>> THEN <<>> ELSE <<<<117, 114, 108, 58, 37>> \o Number(Floor2(Len(es), 0))>>)    \* url:%
       \o [k \in DOMAIN es |-> <<117, 114, 108, 58>> \o es[k]]    \* url:
       \o (IF lookup = 1 THEN LookedUp(Forward(m, hp.host)) ELSE <<>>)
       \o (IF LastOf(site, 64) > 0 THEN <<<<117, 114, 108, 58, 104, 97, 115, 32, 117, 115, 101, 114>>>> ELSE <<>>)    \* url:has user
       \o (IF hp.port /= <<>> /\ ((proto = <<104, 116, 116, 112>> /\ hp.port /= <<56, 48>>)    \* http  80
                                   \/ (proto = <<104, 116, 116, 112, 115>> /\ hp.port /= <<52, 52, 51>>))    \* https  443
           THEN <<<<117, 114, 108, 58, 110, 111, 110, 45, 115, 116, 97, 110, 100, 97, 114, 100, 32>> \o proto \o <<32, 112, 111, 114, 116>>>> ELSE <<>>)    \* url:non-standard    port
       \o (IF IsIp(hp.host) THEN <<<<117, 114, 108, 58, 105, 112, 32, 97, 100, 100, 114>>>> ELSE <<>>)    \* url:ip addr
       \o SubSeq(UrlClues(proto, plain), 2, Len(UrlClues(proto, plain)))
OptClues(o, m, kind, t, s) ==
    IF kind = "url" /\ o.pick = 1 THEN PickedClues(SubSeq(t, s.from, UrlGuts(t, s.from) - 4), SubSeq(t, UrlGuts(t, s.from), s.mark - 1), o.lookup, m)
    ELSE SectionClues(kind, t, s)
OptStrip(o, m, t, clues0) ==
    FoldLeft(LAMBDA acc, kind : Let(Sections(kind, acc.text, 1), LAMBDA ss :
                 [text |-> KeepFrom(acc.text, ss, 1), clues |-> acc.clues \o Flat([j \in DOMAIN ss |-> OptClues(o, m, kind, acc.text, ss[j])])]),
             [text |-> t, clues |-> clues0], Order)
\* [clues, words]
OptAnalysis(o, m, t) ==
    Let(IF o.blot = 1 THEN Blotted(Folded(t)) ELSE Folded(t), LAMBDA x :
    Let(OptStrip(o, m, x, Viruses(x)), LAMBDA s :
        [clues |-> s.clues, words |-> Let(PlainText(s.text), LAMBDA y : WordsOf(y))]))
IsSkip(x) == At(x, 1, <<115, 107, 105, 112, 58>>)    \* skip:
WordSets(o, w) ==
    {{x \in SetOf(alt) : Len(w) <= 12 \/ o.noskip = 0 \/ ~IsSkip(x)} : alt \in WordTokens(w)}
\* The longest row of short words.
RECURSIVE Rows(_, _, _, _)
Rows(ws, k, n, best) ==
    IF k > Len(ws) THEN IF n > best THEN n ELSE best
    ELSE IF Len(ws[k]) < 3 THEN Rows(ws, k + 1, n + 1, best)
    ELSE Rows(ws, k + 1, 0, IF n > best THEN n ELSE best)
Text(o, m, t) ==
    Let(OptAnalysis(o, m, t), LAMBDA a :
        {One(c) : c \in SetOf(a.clues)} \cup {WordSets(o, w) : w \in SetOf(a.words)}
        \cup (IF o.short = 1 /\ Rows(a.words, 1, 0, 0) > 0 THEN {One(<<115, 104, 111, 114, 116, 58>> \o Number(Floor2(Rows(a.words, 1, 0, 0), 0)))} ELSE {}))    \* short:
Texts(o, m) == UNION {Text(o, m, t) : t \in SetOf(m.texts)}

\* ---- other parts ----
Total(ns) == FoldLeft(LAMBDA n, x : n + x, 0, ns)
Images(m) == IF Total(m.images) = 0 THEN {} ELSE {One(<<105, 109, 97, 103, 101, 45, 115, 105, 122, 101, 58>> \o Power(Total(m.images)))}    \* image-size:
Octets(m) == {One(<<111, 99, 116, 101, 116, 58>> \o SubSeq(x, 1, IF Len(x) < 5 THEN Len(x) ELSE 5)) : x \in SetOf(m.octets)}    \* octet:

On(flag, ds) == IF flag = 1 THEN ds ELSE {}
Title(o, m) == IF o.noskip = 0 THEN Subject(m.subject)
               ELSE {{{x \in alt : ~At(x, 1, <<115, 117, 98, 106, 101, 99, 116, 58, 115, 107, 105, 112, 58>>)} : alt \in d} : d \in Subject(m.subject)}    \* subject:skip:
All(o, m) ==
    PartsOf(m) \cup Title(o, m) \cup Fields(m) \cup Recipients(To, m.to) \cup Recipients(Cc, m.cc)
    \cup {Mailer(m.mailer), MessageId(m.msgid)}
    \cup Lines(NamesOf(m), LAMBDA n : o.count = 1 \/ n \in SafeNames)
    \cup On(o.absence, Absent(m)) \cup On(o.received, Received(m))
    \cup On(o.prefixes, SameStart(m)) \cup On(o.suffixes, SameEnd(m))
    \cup On(o.habeas, Habeas(m, o.reduce)) \cup On(o.news, News(m))
    \cup Texts(o, m) \cup On(o.images, Images(m)) \cup On(o.octets, Octets(m))
=============================================================================
