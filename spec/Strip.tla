------------------------------- MODULE Strip -------------------------------
(* Embedded sections of a body text (C22) and the byte texts they are made   *)
(* of. A text is a sequence of 0 .. 255. A section kind has a start mark and *)
(* an end mark; StartEnd/EndEnd give the position just behind a mark that    *)
(* begins at p, or 0 if there is none.                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Kinds == {"uuencode", "url", "fancy", "style", "comment", "noframes"}

IsWs(c) == c = 32 \/ (c >= 9 /\ c <= 13)
IsDigit(c) == c >= 48 /\ c <= 57
IsWord(c) == IsDigit(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
\* the bytes that cannot be part of a URL: white space < > " ' DEL and above
InUrl(c) == ~(IsWs(c) \/ c \in {60, 62, 34, 39} \/ c >= 127)

Ascending(s) == SetToSortSeq(s, <)
Least(s) == CHOOSE x \in s : \A y \in s : x <= y
\* Op(x), with x evaluated once (TLC evaluates arguments again and again)
Let(x, Op(_)) == CHOOSE r \in {Op(y) : y \in {x}} : TRUE
\* s occurs in t at position p
At(t, p, s) == p + Len(s) - 1 <= Len(t) /\ \A j \in 1 .. Len(s) : t[p + j - 1] = s[j]
\* the first position >= p that is no white space / is white space / is c
RECURSIVE SkipWs(_, _), SkipNonWs(_, _), SkipUrl(_, _)
SkipWs(t, p) == IF p > Len(t) \/ ~IsWs(t[p]) THEN p ELSE SkipWs(t, p + 1)
SkipNonWs(t, p) == IF p > Len(t) \/ IsWs(t[p]) THEN p ELSE SkipNonWs(t, p + 1)
SkipUrl(t, p) == IF p > Len(t) \/ ~InUrl(t[p]) THEN p ELSE SkipUrl(t, p + 1)
SkipTo(t, p, c) == LET s == {q \in p .. Len(t) : t[q] = c} IN IF s = {} THEN Len(t) + 1 ELSE Least(s)
\* the last newline in p .. q - 1, or 0
RECURSIVE LastNl(_, _, _)
LastNl(t, p, q) == IF q <= p THEN 0 ELSE IF t[q - 1] = 10 THEN q - 1 ELSE LastNl(t, p, q - 1)
LineStart(t, p) == p = 1 \/ t[p - 1] = 10
WordEnd(t, p) == p > Len(t) \/ ~IsWord(t[p])
\* the mark is closed by the first > behind p
Closed(t, p) == LET g == SkipTo(t, p, 62) IN IF g > Len(t) THEN 0 ELSE g + 1

\* ---- start marks ----
\* begin MODE NAME, alone on their lines
UuMode(t, p) == SkipWs(t, p + 5)
UuModeEnd(t, p) == SkipNonWs(t, UuMode(t, p))
UuName(t, p) == SkipWs(t, UuModeEnd(t, p))
UuNameEnd(t, p) == SkipNonWs(t, UuName(t, p))
UuStart(t, p) ==
    IF ~(LineStart(t, p) /\ At(t, p, <<98, 101, 103, 105, 110>>)) THEN 0    \* begin
    ELSE IF ~(UuMode(t, p) > p + 5 /\ UuModeEnd(t, p) > UuMode(t, p) /\ UuName(t, p) > UuModeEnd(t, p)
              /\ UuNameEnd(t, p) > UuName(t, p)) THEN 0
    ELSE LET e == SkipWs(t, UuNameEnd(t, p)) IN IF e > Len(t) THEN e ELSE LastNl(t, UuNameEnd(t, p), e)
\* protocol://something
UrlGuts(t, p) ==
    IF At(t, p, <<104, 116, 116, 112, 58, 47, 47>>) THEN p + 7    \* http://
    ELSE IF At(t, p, <<104, 116, 116, 112, 115, 58, 47, 47>>) THEN p + 8    \* https://
    ELSE IF At(t, p, <<102, 116, 112, 58, 47, 47>>) THEN p + 6 ELSE 0    \* ftp://
UrlStart(t, p) == IF UrlGuts(t, p) = 0 THEN 0
                  ELSE LET e == SkipUrl(t, UrlGuts(t, p)) IN IF e > UrlGuts(t, p) THEN e ELSE 0
\* the fancy way: also www.x and ftp.x; nothing but at the beginning of a word
WordStart(t, p) == p = 1 \/ ~IsWord(t[p - 1])
FancyGuts(t, p) ==
    IF ~WordStart(t, p) THEN 0
    ELSE IF UrlGuts(t, p) /= 0 THEN UrlGuts(t, p)
    ELSE IF (At(t, p, <<119, 119, 119, 46>>) \/ At(t, p, <<102, 116, 112, 46>>))    \* www. ftp.
            /\ p + 4 <= Len(t) /\ InUrl(t[p + 4]) /\ t[p + 4] /= 46 THEN p ELSE 0
FancyStart(t, p) == IF FancyGuts(t, p) = 0 THEN 0
                    ELSE LET e == SkipUrl(t, FancyGuts(t, p)) IN IF e > FancyGuts(t, p) THEN e ELSE 0
FancyProto(t, p) == IF UrlGuts(t, p) /= 0 THEN SubSeq(t, p, UrlGuts(t, p) - 4)
                    ELSE IF t[p] = 119 THEN <<104, 116, 116, 112>> ELSE <<102, 116, 112>>    \* http ftp
StyleStart(t, p) == LET q == SkipWs(t, p + 1)
                    IN IF t[p] = 60 /\ At(t, q, <<115, 116, 121, 108, 101>>) /\ WordEnd(t, q + 5) THEN Closed(t, q + 5) ELSE 0    \* style
CommentStart(t, p) ==
    IF At(t, p, <<60, 33, 45, 45>>) THEN p + 4    \* <!--
    ELSE LET q == SkipWs(t, p + 1) IN IF t[p] = 60 /\ At(t, q, <<99, 111, 109, 109, 101, 110, 116>>) THEN Closed(t, q + 7) ELSE 0    \* comment
\* NAME> with white space allowed before the >
Tagged(t, q, name) ==
    IF ~At(t, q, name) THEN 0
    ELSE LET e == SkipWs(t, q + Len(name)) IN IF e <= Len(t) /\ t[e] = 62 THEN e + 1 ELSE 0
NoframesStart(t, p) == IF t[p] = 60 THEN Tagged(t, SkipWs(t, p + 1), <<110, 111, 102, 114, 97, 109, 101, 115>>) ELSE 0    \* noframes

StartEnd(kind, t, p) ==
    CASE kind = "uuencode" -> UuStart(t, p)
      [] kind = "url" -> UrlStart(t, p)
      [] kind = "fancy" -> FancyStart(t, p)
      [] kind = "style" -> StyleStart(t, p)
      [] kind = "comment" -> CommentStart(t, p)
      [] kind = "noframes" -> NoframesStart(t, p)

\* ---- end marks ----
UuEnd(t, p) ==
    IF ~(LineStart(t, p) /\ At(t, p, <<101, 110, 100>>)) THEN 0    \* end
    ELSE LET n == LastNl(t, p + 3, SkipWs(t, p + 3)) IN IF n = 0 THEN 0 ELSE n + 1
EndEnd(kind, t, p) ==
    CASE kind = "uuencode" -> UuEnd(t, p)
      [] kind \in {"url", "fancy"} -> p
      [] kind = "style" -> IF At(t, p, <<60, 47, 115, 116, 121, 108, 101, 62>>) THEN p + 8 ELSE 0
      [] kind = "comment" -> IF At(t, p, <<45, 45, 62>>) THEN p + 3 ELSE IF At(t, p, <<60, 47, 99, 111, 109, 109, 101, 110, 116, 62>>) THEN p + 10 ELSE 0
      [] kind = "noframes" -> Tagged(t, p, <<60, 47, 110, 111, 102, 114, 97, 109, 101, 115>>)

\* The bytes a mark can begin with.
StartBytes(kind) == CASE kind = "uuencode" -> {98} [] kind = "url" -> {104, 102} [] kind = "fancy" -> {104, 102, 119} [] kind \in {"style", "comment", "noframes"} -> {60}
EndBytes(kind) == CASE kind = "uuencode" -> {101} [] kind = "comment" -> {60, 45} [] kind \in {"style", "noframes"} -> {60}

\* The first mark at or behind i: <<begin, behind>>, or <<0, 0>>.
FindStart(kind, t, i) ==
    LET c == {p \in i .. Len(t) : t[p] \in StartBytes(kind) /\ StartEnd(kind, t, p) /= 0}
    IN IF c = {} THEN <<0, 0>> ELSE LET p == Least(c) IN <<p, StartEnd(kind, t, p)>>
FindEnd(kind, t, i) ==
    IF kind \in {"url", "fancy"} THEN <<i, i>>
    ELSE LET c == {p \in i .. Len(t) : t[p] \in EndBytes(kind) /\ EndEnd(kind, t, p) /= 0}
         IN IF c = {} THEN <<0, 0>> ELSE LET p == Least(c) IN <<p, EndEnd(kind, t, p)>>

\* All sections from i on: a sequence of [from, mark, to]; to = 0: not closed
\* (then it is the last one and cuts nothing).
RECURSIVE Sections(_, _, _)
Sections(kind, t, i) ==
    Let(FindStart(kind, t, i), LAMBDA s :
        IF s[1] = 0 THEN <<>>
        ELSE Let(FindEnd(kind, t, s[2]), LAMBDA e :
                 IF e[2] = 0 THEN <<[from |-> s[1], mark |-> s[2], to |-> 0]>>
                 ELSE <<[from |-> s[1], mark |-> s[2], to |-> e[2]]>> \o Sections(kind, t, e[2])))

\* What is kept.
RECURSIVE KeepFrom(_, _, _)
KeepFrom(t, secs, i) ==
    IF secs = <<>> \/ Head(secs).to = 0 THEN SubSeq(t, i, Len(t))
    ELSE SubSeq(t, i, Head(secs).from - 1) \o KeepFrom(t, SubSeq(secs, 2, Len(secs)), Head(secs).to)
Kept(kind, t) == Let(Sections(kind, t, 1), LAMBDA ss : KeepFrom(t, ss, 1))

\* ---- clues ----
\* The parts of s between the bytes of the set d.
Parts(s, d) ==
    LET cuts == <<0>> \o Ascending({p \in DOMAIN s : s[p] \in d}) \o <<Len(s) + 1>>
    IN Let(cuts, LAMBDA c : [k \in 1 .. Len(c) - 1 |-> SubSeq(s, c[k] + 1, c[k + 1] - 1)])
Flat(ss) == FlattenSeq(ss)
Each(prefix, ss) == [j \in DOMAIN ss |-> prefix \o ss[j]]

UrlSeps == {59, 63, 58, 64, 38, 61, 43, 44, 36, 46}           \* ; ? : @ & = + , $ .
NameSeps == {47, 92, 58}                                         \* / \ :
Trailing == {46, 58, 63, 33, 47}                                 \* . : ? ! /
RECURSIVE Trim(_)
Trim(s) == IF s /= <<>> /\ s[Len(s)] \in Trailing THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

FileNameClues(name) ==
    LET comps == Parts(name, NameSeps)
        one(c) == LET pieces == Parts(c, UrlSeps)
                  IN (IF Len(comps) > 1 THEN <<<<102, 110, 97, 109, 101, 32, 99, 111, 109, 112, 58>> \o c>> ELSE <<>>)    \* fname comp:
                     \o (IF Len(pieces) > 1 THEN Each(<<102, 110, 97, 109, 101, 32, 112, 105, 101, 99, 101, 58>>, pieces) ELSE <<>>)    \* fname piece:
    IN <<<<102, 110, 97, 109, 101, 58>> \o name>> \o Flat([j \in DOMAIN comps |-> one(comps[j])])    \* fname:
UrlClues(proto, guts) ==
    LET pieces == Parts(Trim(guts), {47})
    IN <<<<112, 114, 111, 116, 111, 58>> \o proto>> \o Flat([j \in DOMAIN pieces |-> Each(<<117, 114, 108, 58>>, Parts(pieces[j], UrlSeps))])    \* proto:  url:
SectionClues(kind, t, s) ==
    CASE kind = "url" -> UrlClues(SubSeq(t, s.from, UrlGuts(t, s.from) - 4), SubSeq(t, UrlGuts(t, s.from), s.mark - 1))
      [] kind = "fancy" -> UrlClues(FancyProto(t, s.from), SubSeq(t, FancyGuts(t, s.from), s.mark - 1))
      [] kind = "uuencode" ->
           <<<<117, 117, 101, 110, 99, 111, 100, 101, 32, 109, 111, 100, 101, 58>> \o SubSeq(t, UuMode(t, s.from), UuModeEnd(t, s.from) - 1)>>    \* uuencode mode:
           \o Each(<<117, 117, 101, 110, 99, 111, 100, 101, 58>>, FileNameClues(SubSeq(t, UuName(t, s.from), UuNameEnd(t, s.from) - 1)))    \* uuencode:
      [] OTHER -> <<>>
CluesOf(kind, t, ss) == Flat([j \in DOMAIN ss |-> SectionClues(kind, t, ss[j])])
Clues(kind, t) == Let(Sections(kind, t, 1), LAMBDA ss : CluesOf(kind, t, ss))
=============================================================================
