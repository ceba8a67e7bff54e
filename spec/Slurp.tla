------------------------------- MODULE Slurp -------------------------------
(* Following the links of messages (C23).                                    *)
(*                                                                           *)
(* link: the pending link, <<>> or <<url>>. world: what the network would    *)
(* answer for each url now. mem: what is remembered of each url. A url is a  *)
(* sequence of bytes; an outcome is [tok |-> T, page |-> 0] for a url that   *)
(* leaves the failure token T, and [tok |-> "", page |-> k] for page k.      *)
EXTENDS Strip, TLC

Page(k) == [tok |-> "", page |-> k]
Fail(tok) == [tok |-> tok, page |-> 0]
NonResolving == "url:non_resolving"
NonHtml == "url:non_html"

\* ---- the pending link ----
TrailingLink == {46, 58, 59, 63, 33, 47, 41}           \* . : ; ? ! / )
RECURSIVE TrimLink(_)
TrimLink(s) == IF s /= <<>> /\ s[Len(s)] \in TrailingLink THEN TrimLink(SubSeq(s, 1, Len(s) - 1)) ELSE s
Http == <<104, 116, 116, 112>>
\* The last http link of a body text, if any.
LastLink(t) ==
    Let(SelectSeq(Sections("url", t, 1), LAMBDA s : SubSeq(t, s.from, UrlGuts(t, s.from) - 4) = Http),
        LAMBDA ss : IF ss = <<>> THEN <<>>
                    ELSE LET s == ss[Len(ss)] IN <<TrimLink(SubSeq(t, UrlGuts(t, s.from), s.mark - 1))>>)

\* ---- what a url gives ----
Images == {<<106, 112, 103>>, <<103, 105, 102>>, <<112, 110, 103>>, <<99, 115, 115>>, <<106, 115>>}    \* jpg gif png css js
Extension(u) == LET dots == {p \in DOMAIN u : u[p] = 46}
                IN IF dots = {} THEN u ELSE SubSeq(u, (CHOOSE p \in dots : \A q \in dots : q <= p) + 1, Len(u))
\* The basic form of a url: its domain without all but the two, with a country three, last labels.
RECURSIVE Labels(_)
Labels(d) == LET dots == {p \in DOMAIN d : d[p] = 46}
             IN IF dots = {} THEN <<d>>
                ELSE LET p == CHOOSE q \in dots : \A r \in dots : q <= r
                     IN <<SubSeq(d, 1, p - 1)>> \o Labels(SubSeq(d, p + 1, Len(d)))
Domain(u) == LET ends == {p \in DOMAIN u : u[p] = 47}
             IN IF ends = {} THEN u ELSE SubSeq(u, 1, (CHOOSE p \in ends : \A q \in ends : p <= q) - 1)
Dot(a, b) == a \o <<46>> \o b
Base(u) ==
    LET ls == Labels(Domain(u))
        n == Len(ls)
    IN IF n <= 2 THEN Domain(u)
       ELSE IF Len(ls[n]) < 3 THEN Dot(ls[n - 2], Dot(ls[n - 1], ls[n]))
       ELSE Dot(ls[n - 1], ls[n])
\* Following url u: [out: its outcome, fetch: 1 if the page is requested, mem: what is remembered afterwards].
\* known: <<>> or <<the remembered outcome>>; now: the outcome the network has for it.
Follow(u, known, now) ==
    IF u = <<>> THEN [out |-> Fail(NonResolving), fetch |-> 0, mem |-> <<>>]
    ELSE IF known /= <<>> THEN [out |-> known[1], fetch |-> 0, mem |-> known]
    ELSE IF now.tok = NonResolving THEN [out |-> now, fetch |-> 0, mem |-> <<now>>]
    ELSE IF Extension(u) \in Images THEN [out |-> Fail(NonHtml), fetch |-> 0, mem |-> <<Fail(NonHtml)>>]
    ELSE [out |-> now, fetch |-> 1, mem |-> <<now>>]

\* ---- counts: a function from tokens to <<spam, ham>> ----
Dec(x) == IF x > 0 THEN x - 1 ELSE 0
Counted(cnt, tokens, kind, up) ==
    [w \in DOMAIN cnt |->
        IF w \notin tokens THEN cnt[w]
        ELSE IF kind = "spam" THEN <<IF up THEN cnt[w][1] + 1 ELSE Dec(cnt[w][1]), cnt[w][2]>>
        ELSE <<cnt[w][1], IF up THEN cnt[w][2] + 1 ELSE Dec(cnt[w][2])>>]
=============================================================================
