------------------------------ MODULE MCStrip ------------------------------
(* All texts that are sequences of at most MaxLen of the given chunks: the    *)
(* sections that are cut out, and for Kind = "body" the whole pipeline.       *)
EXTENDS Body, TLC, Json
CONSTANTS Kind, MaxLen
VARIABLES n, text

\* marks, near misses of marks, and what separates them
Chunks ==
    CASE Kind = "uuencode" ->
           <<<<98, 101, 103, 105, 110, 32, 54, 32, 97, 46, 98>>,        \* begin 6 a.b
             <<98, 101, 103, 105, 110>>,                                \* begin
             <<101, 110, 100>>,                                         \* end
             <<10>>, <<32>>, <<120>>>>                                  \* newline, space, x
      [] Kind = "url" ->
           <<<<104, 116, 116, 112, 58, 47, 47>>,                        \* http://
             <<102, 116, 112, 58, 47, 47>>,                             \* ftp://
             <<115, 58>>, <<97, 46>>, <<47>>, <<62>>, <<63, 61>>>>      \* s: a. / > ?=
      [] Kind = "fancy" ->
           <<<<104, 116, 116, 112, 58, 47, 47>>,                        \* http://
             <<102, 116, 112, 46>>, <<119, 119, 119, 46>>,       \* ftp. www.
             <<97>>, <<46>>, <<32>>, <<58, 47, 47>>>>                   \* a . space ://
      [] Kind = "style" ->
           <<<<60, 115, 116, 121, 108, 101>>,                           \* <style
             <<60, 32, 115, 116, 121, 108, 101, 32, 97, 62>>,           \* < style a>
             <<60, 47, 115, 116, 121, 108, 101, 62>>,                   \* </style>
             <<62>>, <<115>>, <<45>>>>                                  \* > s -
      [] Kind = "comment" ->
           <<<<60, 33, 45, 45>>, <<45, 45, 62>>,                        \* <!-- -->
             <<60, 99, 111, 109, 109, 101, 110, 116>>,                  \* <comment
             <<60, 47, 99, 111, 109, 109, 101, 110, 116, 62>>,          \* </comment>
             <<62>>, <<45>>>>                                           \* > -
      [] Kind = "noframes" ->
           <<<<60, 110, 111, 102, 114, 97, 109, 101, 115>>,             \* <noframes
             <<60, 47, 110, 111, 102, 114, 97, 109, 101, 115>>,         \* </noframes
             <<62>>, <<32>>, <<120>>>>                                  \* > space x
      [] Kind = "body" ->
           <<<<97, 66, 99>>, <<64>>, <<46>>, <<32>>,                    \* aBc @ . space
             <<60, 98, 114, 62>>, <<60>>, <<62>>,                       \* <br> < >
             <<38, 35, 54, 53, 59>>, <<38, 35, 50, 51, 51, 59>>,        \* &#65; &#233;
             <<102, 111, 111, 98, 97, 114, 98, 97, 122>>>>              \* foobarbaz

Init == n = 0 /\ text = <<>>
Next == n < MaxLen /\ n' = n + 1 /\ \E j \in DOMAIN Chunks : text' = text \o Chunks[j]
Spec == Init /\ [][Next]_<<n, text>>

Cut(t) == LET ss == Sections(Kind, t, 1) IN SelectSeq(ss, LAMBDA s : s.to /= 0)
IsSection == Kind /= "body"
\* The sections are in order and apart, each from a start mark to an end mark.
Shape == IsSection => LET ss == Cut(text) IN \A j \in DOMAIN ss :
    /\ ss[j].from < ss[j].mark /\ ss[j].mark <= ss[j].to /\ ss[j].to <= Len(text) + 1
    /\ j > 1 => ss[j - 1].to <= ss[j].from
    /\ StartEnd(Kind, text, ss[j].from) = ss[j].mark
    /\ \E p \in ss[j].mark .. ss[j].to : EndEnd(Kind, text, p) = ss[j].to
\* No start mark is passed over that has an end mark behind it, unless it lies
\* within another mark.
Complete == IsSection => LET ss == Sections(Kind, text, 1) IN \A p \in 1 .. Len(text) :
    (StartEnd(Kind, text, p) /= 0
     /\ \A j \in DOMAIN ss : ~(p >= ss[j].from /\ p < (IF ss[j].to = 0 THEN ss[j].mark ELSE ss[j].to)))
    => \A q \in StartEnd(Kind, text, p) .. Len(text) + 1 : EndEnd(Kind, text, q) = 0
\* Nothing outside the sections is lost, doubled or moved.
InSome(p) == LET ss == Cut(text) IN \E j \in DOMAIN ss : p >= ss[j].from /\ p < ss[j].to
RECURSIVE Outside(_)
Outside(p) == IF p > Len(text) THEN <<>> ELSE (IF InSome(p) THEN <<>> ELSE <<text[p]>>) \o Outside(p + 1)
Exact == IsSection => Kept(Kind, text) = Outside(1)
\* Without a start mark there are no clues.
Silent == IsSection /\ (\A p \in 1 .. Len(text) : StartEnd(Kind, text, p) = 0)
          => Clues(Kind, text) = <<>> /\ Kept(Kind, text) = text
\* The words have no white space, upper case letters or tags; each token is a
\* word or replaces a long one.
Tame == Kind = "body" =>
    LET ws == BodyWords(text)
    IN \A j \in DOMAIN ws :
        /\ ws[j] /= <<>> /\ \A k \in DOMAIN ws[j] : ~IsWs(ws[j][k]) /\ ~(ws[j][k] \in 65 .. 90)
        /\ \A x \in WordTokens(ws[j]) : Len(x) = (IF Len(ws[j]) < 3 THEN 0 ELSE IF Len(ws[j]) <= 12 THEN 1
                                                  ELSE IF IsAddress(ws[j]) \/ High(ws[j]) > 0 THEN 2 ELSE 1)
Emit == PrintT(ToJson([text |-> text']))
=============================================================================
