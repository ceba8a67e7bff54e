------------------------------- MODULE MCHead -------------------------------
(* All short texts of a kind of header line, and what they become.           *)
(*   subject   characters of a Subject                                       *)
(*   msgid     characters of a Message-Id                                    *)
(*   mailer    characters of an X-Mailer                                     *)
(*   names     names of header lines                                         *)
(*   people    recipients, with and without a name                           *)
EXTENDS Head, TLC, Json
CONSTANTS Kind, MaxLen
VARIABLE s

Alphabet ==
    CASE Kind = "subject" -> {97, 65, 95, 37, 46, 32, 33, 13, 233, 160, 215, 8364}    \* a A _ % . space ! CR
      [] Kind = "msgid" -> {60, 62, 64, 97, 32}    \* < > @ a space
      [] Kind = "mailer" -> {97, 66, 32, 9, 10, 160, 201}    \* a B space tab newline
      [] Kind = "names" -> {<<84, 111>>, <<84, 79>>, <<68, 97, 116, 101>>, <<88, 45, 70, 111, 111>>, <<88, 45, 70, 97, 99, 101>>}    \* To TO Date X-Foo X-Face
      [] Kind = "people" -> {0, 1}
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s

Total(ss) == FoldLeft(LAMBDA n, x : n + Len(x), 0, ss)
\* Each character is in one word or in one run, and in both only if it is a
\* character that words may have but that is no letter.
Covered == Kind = "subject" =>
    /\ Total(SubjectWords(s)) = Len(SelectSeq(s, InWord))
    /\ Total(Punctuation(s)) = Len(SelectSeq(s, LAMBDA c : ~IsLetter(c)))
    /\ \A j \in DOMAIN s : InWord(s[j]) \/ ~IsLetter(s[j])
    /\ (s /= <<>> => Subject(<<[charset |-> <<>>, text |-> s]>>) /= {} \/ Total(SubjectWords(s)) < 3 * Len(SubjectWords(s)))
\* A message id is well formed if and only if it can be taken apart so.
Valid == Kind = "msgid" =>
    LET host == {<<h[1], h[2]>> : h \in {x \in (1 .. Len(s)) \X (1 .. Len(s)) :
                     /\ x[1] <= x[2] /\ x[1] > 1 /\ s[x[1] - 1] = 64
                     /\ \A j \in x[1] .. x[2] : s[j] /= 62
                     /\ x[2] < Len(s) /\ s[x[2] + 1] = 62
                     /\ \E o \in 1 .. x[1] - 3 : s[o] = 60 /\ (\A j \in 1 .. o - 1 : s[j] = 32) /\ \A j \in o + 1 .. x[1] - 2 : s[j] /= 64}}
    IN MessageId(<<s>>) = One(<<109, 101, 115, 115, 97, 103, 101, 45, 105, 100, 58>>    \* message-id:
                              \o (IF host = {} THEN <<105, 110, 118, 97, 108, 105, 100>>    \* invalid
                                  ELSE LET h == CHOOSE x \in host : TRUE IN <<64>> \o SubSeq(s, h[1], h[2])))
       /\ Cardinality(host) <= 1
\* White space and case do not matter.
Normal == Kind = "mailer" =>
    LET x == CHOOSE v \in (CHOOSE w \in Mailer(<<s>>) : TRUE) : TRUE
        rest == SubSeq(x, 10, Len(x))
    IN /\ Mailer(<<LowerText(s)>>) = Mailer(<<s>>)
       /\ Mailer(<<<<32>> \o s \o <<10>>>>) = Mailer(<<s>>)
       /\ rest /= <<>> => rest[1] /= 32 /\ rest[Len(rest)] /= 32
       /\ \A j \in 1 .. Len(rest) - 1 : ~(rest[j] = 32 /\ rest[j + 1] = 32)
\* One token for each spelling of the name of a counted line.
Counts == Kind = "names" =>
    LET ds == Lines(s, LAMBDA n : n \in SafeNames)
    IN /\ Cardinality(ds) = Cardinality({n \in SetOf(s) : n /= <<88, 45, 70, 111, 111>>})
       /\ \A n \in SetOf(s) \ {<<88, 45, 70, 111, 111>>} :
             \E d \in ds : d = One(<<104, 101, 97, 100, 101, 114, 58>> \o n \o <<58, 48 + Cardinality({j \in DOMAIN s : s[j] = n})>>)    \* header:
\* The nearest power of two, by ratio.
Larger(x, y) == IF x > y THEN x ELSE y
Smaller(x, y) == IF x > y THEN y ELSE x
NearestOk == Kind = "people" /\ s /= <<>> =>
    LET n == Len(s)
        k == Nearest(n, 0)
    IN \A j \in 0 .. 8 : Larger(n, 2 ^ k) * Smaller(n, 2 ^ j) <= Larger(n, 2 ^ j) * Smaller(n, 2 ^ k)
Emit == PrintT(ToJson([kind |-> Kind, s |-> s']))
=============================================================================
