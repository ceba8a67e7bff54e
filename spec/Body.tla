-------------------------------- MODULE Body --------------------------------
(* From the bytes of a text part to its tokens (C21). *)
EXTENDS Strip

Lower(t) == [j \in DOMAIN t |-> IF t[j] >= 65 /\ t[j] <= 90 THEN t[j] + 32 ELSE t[j]]

\* ---- numeric character references: &#DIGITS; ----
RECURSIVE SkipDigits(_, _), SkipZeros(_, _, _), Value(_, _, _, _)
SkipDigits(t, p) == IF p > Len(t) \/ ~IsDigit(t[p]) THEN p ELSE SkipDigits(t, p + 1)
SkipZeros(t, p, e) == IF p >= e \/ t[p] /= 48 THEN p ELSE SkipZeros(t, p + 1, e)
Value(t, p, e, acc) == IF p >= e THEN acc ELSE Value(t, p + 1, e, acc * 10 + t[p] - 48)
Utf8(v) ==
    IF v < 128 THEN <<v>>
    ELSE IF v < 2048 THEN <<192 + (v \div 64), 128 + (v % 64)>>
    ELSE IF v < 65536 THEN <<224 + (v \div 4096), 128 + ((v \div 64) % 64), 128 + (v % 64)>>
    ELSE <<240 + (v \div 262144), 128 + ((v \div 4096) % 64), 128 + ((v \div 64) % 64), 128 + (v % 64)>>
IsChar(v) == v <= 1114111 /\ ~(v >= 55296 /\ v <= 57343)
\* the digits in p .. e - 1; more than seven significant digits are no character
\* (numbers with thousands of digits may or may not be read)
Decoded(t, p, e) ==
    LET z == SkipZeros(t, p, e)
    IN IF e - z > 7 THEN <<63>> ELSE LET v == Value(t, z, e, 0) IN IF IsChar(v) THEN Utf8(v) ELSE <<63>>    \* ?  ?
\* behind the reference at p, or 0
EntityEnd(t, p) == LET e == SkipDigits(t, p + 2)
                   IN IF At(t, p, <<38, 35>>) /\ e > p + 2 /\ e <= Len(t) /\ t[e] = 59 THEN e + 1 ELSE 0    \* &#

\* ---- marks of viruses ----
Quote(t, p) == IF p <= Len(t) /\ t[p] \in {34, 39} THEN p + 1 ELSE p
Boundary(t, p) == p = 1 \/ ~IsWord(t[p - 1])
\* behind the mark at p, or 0
VirusEnd(t, p) ==
    LET q == SkipWs(t, IF At(t, p + 1, <<47>>) THEN p + 2 ELSE p + 1)    \* /
        dim(n) == LET v == Quote(t, p + n) IN IF At(t, v, <<48>>) THEN v + 1 ELSE 0    \* 0
    IN IF t[p] = 60 THEN (IF At(t, q, <<115, 99, 114, 105, 112, 116>>) /\ WordEnd(t, q + 6) THEN q + 6    \* script
                          ELSE IF At(t, q, <<105, 102, 114, 97, 109, 101>>) /\ WordEnd(t, q + 6) THEN q + 6 ELSE 0)    \* iframe
       ELSE IF ~Boundary(t, p) THEN 0
       ELSE IF At(t, p, <<115, 114, 99, 61>>) THEN (LET v == Quote(t, p + 4) IN IF At(t, v, <<99, 105, 100, 58>>) THEN v + 4 ELSE 0)    \* src=  cid:
       ELSE IF At(t, p, <<104, 101, 105, 103, 104, 116, 61>>) THEN dim(7)    \* height=
       ELSE IF At(t, p, <<119, 105, 100, 116, 104, 61>>) THEN dim(6) ELSE 0    \* width=
\* ---- line breaks and tags ----
BreakEnd(t, p) == IF At(t, p, <<38, 110, 98, 115, 112, 59>>) THEN p + 6 ELSE IF At(t, p, <<60, 112, 62>>) THEN p + 3    \* &nbsp;  <p>
                  ELSE IF At(t, p, <<60, 98, 114, 62>>) THEN p + 4 ELSE 0    \* <br>
\* a tag: < something >, at most 256 bytes between, not starting with a space, < or >
TagEnd(t, p) ==
    IF t[p] /= 60 \/ p = Len(t) \/ IsWs(t[p + 1]) \/ t[p + 1] \in {60, 62} THEN 0
    ELSE LET g == SkipTo(t, p + 1, 62) IN IF g > Len(t) \/ g - p - 1 > 256 THEN 0 ELSE g + 1

\* ---- replacing ----
\* The marks in t from i on, left to right and without overlap: <<from, to>>.
MarkBytes(what) == CASE what = <<101, 110, 116, 105, 116, 121>> -> {38} [] what = <<118, 105, 114, 117, 115>> -> {60, 115, 104, 119}    \* entity  virus
                     [] what = <<98, 114, 101, 97, 107>> -> {38, 60} [] what = <<116, 97, 103>> -> {60}    \* break  tag
MarkEnd(what, t, p) == CASE what = <<101, 110, 116, 105, 116, 121>> -> EntityEnd(t, p) [] what = <<118, 105, 114, 117, 115>> -> VirusEnd(t, p)    \* entity  virus
                         [] what = <<98, 114, 101, 97, 107>> -> BreakEnd(t, p) [] what = <<116, 97, 103>> -> TagEnd(t, p)    \* break  tag
\* those that begin somewhere, as <<from, to>>
MarkSet(what, t) == {<<p, MarkEnd(what, t, p)>> : p \in {q \in DOMAIN t : t[q] \in MarkBytes(what) /\ MarkEnd(what, t, q) /= 0}}
\* (the set is ordered by position: SetToSortSeq)
Marks(what, t) ==
    FoldLeft(LAMBDA acc, m : IF acc = <<>> \/ acc[Len(acc)][2] <= m[1] THEN Append(acc, m) ELSE acc,
             <<>>, SetToSortSeq(MarkSet(what, t), LAMBDA x, y : x[1] < y[1]))
\* t with each mark m replaced by By(m)
Replace(t, ms, By(_)) ==
    SubSeq(t, 1, IF ms = <<>> THEN Len(t) ELSE ms[1][1] - 1)
    \o Flat([k \in DOMAIN ms |-> By(ms[k]) \o SubSeq(t, ms[k][2], IF k = Len(ms) THEN Len(t) ELSE ms[k + 1][1] - 1)])
Entities(t) == Let(Marks(<<101, 110, 116, 105, 116, 121>>, t), LAMBDA ms : Replace(t, ms, LAMBDA m : Decoded(t, m[1] + 2, m[2] - 1)))    \* entity
Viruses(t) == Let(Marks(<<118, 105, 114, 117, 115>>, t), LAMBDA ms : [k \in DOMAIN ms |-> <<118, 105, 114, 117, 115, 58>> \o SubSeq(t, ms[k][1], ms[k][2] - 1)])    \* virus  virus:
Breaks(t) == Let(Marks(<<98, 114, 101, 97, 107>>, t), LAMBDA ms : Replace(t, ms, LAMBDA m : <<32>>))    \* break
Untag(t) == Let(Marks(<<116, 97, 103>>, t), LAMBDA ms : Replace(t, ms, LAMBDA m : <<>>))    \* tag

\* ---- words ----
WordsOf(t) ==
    Let(Ascending({p \in DOMAIN t : ~IsWs(t[p]) /\ (p = 1 \/ IsWs(t[p - 1]))}), LAMBDA from :
    Let(Ascending({p \in DOMAIN t : ~IsWs(t[p]) /\ (p = Len(t) \/ IsWs(t[p + 1]))}), LAMBDA to :
        [k \in DOMAIN from |-> SubSeq(t, from[k], to[k])]))
Count(w, c) == Len(SelectSeq(w, LAMBDA x : x = c))
High(w) == Len(SelectSeq(w, LAMBDA x : x >= 128))
RECURSIVE Number(_)
Number(n) == IF n < 10 THEN <<48 + n>> ELSE Number(n \div 10) \o <<48 + (n % 10)>>
IsAddress(w) == Len(w) < 40 /\ Count(w, 46) > 0 /\ Count(w, 64) = 1
\* The nearest whole percentages: two if it is just between them.
Percentages(w) == {p \in 0 .. 100 : LET d == 200 * High(w) - 2 * p * Len(w) IN d <= Len(w) /\ -d <= Len(w)}
\* The possible sequences of tokens of a word.
WordTokens(w) ==
    IF Len(w) < 3 THEN {<<>>}
    ELSE IF Len(w) <= 12 THEN {<<w>>}
    ELSE IF IsAddress(w) THEN
        LET ps == Parts(w, {64}) IN {<<<<101, 109, 97, 105, 108, 32, 110, 97, 109, 101, 58>> \o ps[1], <<101, 109, 97, 105, 108, 32, 97, 100, 100, 114, 58>> \o ps[2]>>}    \* email name:  email addr:
    ELSE LET skip == <<115, 107, 105, 112, 58>> \o <<w[1]>> \o <<32>> \o Number(10 * (Len(w) \div 10))    \* skip:
         IN IF High(w) = 0 THEN {<<skip>>}
            ELSE {<<skip, <<56, 98, 105, 116, 37, 58>> \o Number(p)>> : p \in Percentages(w)}    \* 8bit%:

\* ---- the whole ----
Order == <<"uuencode", "url", "style", "comment", "noframes">>
Strip(t, clues0) ==
    FoldLeft(LAMBDA acc, kind : Let(Sections(kind, acc.text, 1), LAMBDA ss :
                 [text |-> KeepFrom(acc.text, ss, 1), clues |-> acc.clues \o CluesOf(kind, acc.text, ss)]),
             [text |-> t, clues |-> clues0], Order)
Folded(t) == Lower(Entities(t))
Stripped(t) == Let(Folded(t), LAMBDA x : Strip(x, Viruses(x)))
PlainText(t) == Let(Breaks(t), LAMBDA x : Untag(x))
\* [clues, words]
Analysis(t) == Let(Stripped(t), LAMBDA s : [clues |-> s.clues, words |-> Let(PlainText(s.text), LAMBDA x : WordsOf(x))])
BodyWords(t) == Analysis(t).words
\* The tokens as a sequence, with the first of the possible percentages.
TokensOf(a) == a.clues \o Flat([j \in DOMAIN a.words |-> CHOOSE x \in WordTokens(a.words[j]) : TRUE])
BodyTokens(t) == Let(Analysis(t), LAMBDA a : TokensOf(a))
\* Words with two possible percentages.
Unclear(t) == LET ws == BodyWords(t) IN \E j \in DOMAIN ws : Cardinality(WordTokens(ws[j])) > 1
=============================================================================
