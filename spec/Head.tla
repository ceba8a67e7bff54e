-------------------------------- MODULE Head --------------------------------
(* From the header lines of a message and of its parts to tokens (C27).      *)
(* Text is a sequence of code points; a token is a sequence of bytes. What   *)
(* the characters of a header mean (encoded words, mailboxes, parameters) is *)
(* part of the input; what becomes of it is said here.                       *)
EXTENDS Body

\* ---- characters ----
\* The letters and other characters beyond ASCII that texts are made of here.
Letters == {178, 181, 201, 233, 252, 321, 322, 913, 945, 20013}
Others == {160, 183, 215, 8364, 65533, 128512}
IsLetter(c) == IsWord(c) \/ c \in Letters
InWord(c) == IsLetter(c) \/ (c >= 128 /\ c <= 255) \/ c \in {36, 37, 46}    \* $ % .
LowerChar(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE CASE c = 201 -> 233 [] c = 321 -> 322 [] c = 913 -> 945 [] OTHER -> c
LowerText(t) == [j \in DOMAIN t |-> LowerChar(t[j])]
Bytes(t) == IF \A j \in DOMAIN t : t[j] < 128 THEN t ELSE Flat([j \in DOMAIN t |-> Utf8(t[j])])

\* The longest pieces of t whose characters are In.
Runs(t, In(_)) ==
    Let(Ascending({p \in DOMAIN t : In(t[p]) /\ (p = 1 \/ ~In(t[p - 1]))}), LAMBDA from :
    Let(Ascending({p \in DOMAIN t : In(t[p]) /\ (p = Len(t) \/ ~In(t[p + 1]))}), LAMBDA to :
        [k \in DOMAIN from |-> SubSeq(t, from[k], to[k])]))
SubjectWords(t) == Runs(t, InWord)
Punctuation(t) == Runs(t, LAMBDA c : ~IsLetter(c))
\* The pieces between white space.
IsSpace(c) == IsWs(c) \/ c \in {28, 29, 30, 31, 133, 160}
Chunks(t) == Runs(t, LAMBDA c : ~IsSpace(c))
RECURSIVE SkipSpace(_, _)
SkipSpace(t, p) == IF p > Len(t) \/ ~IsSpace(t[p]) THEN p ELSE SkipSpace(t, p + 1)
RECURSIVE Joined(_, _)
Joined(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(SubSeq(ss, 2, Len(ss)), sep)

\* ---- numbers ----
\* the power of two nearest to n > 0 by ratio
RECURSIVE Nearest(_, _)
Nearest(n, k) == IF n * n < 2 ^ (2 * k + 1) THEN k ELSE Nearest(n, k + 1)
Power(n) == <<50, 42, 42>> \o Number(Nearest(n, 0))    \* 2**

\* ---- what tokens there are ----
\* A demand is a set of alternatives, each a set of tokens: one of them must be
\* there, and nothing else may be.
One(x) == {{x}}
Ones(s) == {One(x) : x \in s}
SetOf(s) == {s[j] : j \in DOMAIN s}
Pre(prefix, s) == {prefix \o x : x \in SetOf(s)}
\* words as they are tokenized in a body, each token behind a prefix
Word(prefix, w) == {Pre(prefix, alt) : alt \in WordTokens(Bytes(w))}
Words(prefix, t) == {Word(prefix, w) : w \in SetOf(SubjectWords(t))}

\* Subject: [charset, text] of its pieces; <<>>: no charset named
CrToSpace(t) == [j \in DOMAIN t |-> IF t[j] = 13 THEN 32 ELSE t[j]]
Piece(c) ==
    Let(CrToSpace(c.text), LAMBDA x :
       (IF c.charset = <<>> THEN {} ELSE {One(<<115, 117, 98, 106, 101, 99, 116, 99, 104, 97, 114, 115, 101, 116, 58>> \o Bytes(LowerText(c.charset)))})    \* subjectcharset:
       \cup Words(<<115, 117, 98, 106, 101, 99, 116, 58>>, x)    \* subject:
       \cup Ones(Pre(<<115, 117, 98, 106, 101, 99, 116, 58>>, [k \in DOMAIN Punctuation(x) |-> Bytes(Punctuation(x)[k])])))    \* subject:
Subject(cs) == UNION {Piece(c) : c \in SetOf(cs)}

\* Addresses: the field's mailboxes [name (pieces), addr]; lines: number of such header lines
Name(f, c) == {One(f \o <<58, 110, 97, 109, 101, 58>> \o Bytes(LowerText(c.text)))}    \* :name:
              \cup (IF c.charset = <<>> THEN {} ELSE {One(f \o <<58, 99, 104, 97, 114, 115, 101, 116, 58>> \o Bytes(LowerText(c.charset)))})    \* :charset:
Box(f, b) ==
    UNION {Name(f, c) : c \in SetOf(b.name)}
    \cup (IF b.addr = <<>> THEN {One(f \o <<58, 97, 100, 100, 114, 58, 110, 111, 110, 101>>)}    \* :addr:none
          ELSE Ones({f \o <<58, 97, 100, 100, 114, 58>> \o Bytes(x) : x \in SetOf(Parts(LowerText(b.addr), {64}))}))    \* :addr:
Nameless(bs) == Len(SelectSeq(bs, LAMBDA b : b.name = <<>>))
Address(f, a) ==
    IF a.lines = <<>> THEN {One(f \o <<58, 110, 111, 110, 101>>)}    \* :none
    ELSE UNION {Box(f, b) : b \in SetOf(a.boxes)}
         \cup (IF Nameless(a.boxes) = 0 THEN {}
               ELSE {One(f \o <<58, 110, 111, 32, 114, 101, 97, 108, 32, 110, 97, 109, 101, 58>> \o Power(Nameless(a.boxes)))})    \* :no real name:
\* the number of recipients, by the commas
Pieces(lines) == FoldLeft(LAMBDA n, l : n + Count(l, 44) + 1, 0, lines)
Recipients(f, a) == IF a.lines = <<>> THEN {} ELSE {One(f \o <<58>> \o Power(Pieces(a.lines)))}

\* X-Mailer, in lower case and with single spaces
Mailer(lines) == One(<<120, 45, 109, 97, 105, 108, 101, 114, 58>>    \* x-mailer:
                     \o (IF lines = <<>> THEN <<110, 111, 110, 101>> ELSE Bytes(Joined(Chunks(LowerText(lines[1])), <<32>>))))    \* none
\* Message-Id: <something@host>
MessageId(lines) ==
    LET x == IF lines = <<>> THEN <<>> ELSE lines[1]
        o == SkipSpace(x, 1)
        at == SkipTo(x, o + 1, 64)    \* @
        g == SkipTo(x, at + 1, 62)    \* >
        good == o <= Len(x) /\ x[o] = 60 /\ at <= Len(x) /\ at > o + 1 /\ g <= Len(x) /\ g > at + 1    \* <
    IN One(<<109, 101, 115, 115, 97, 103, 101, 45, 105, 100, 58>>    \* message-id:
           \o (IF good THEN <<64>> \o Bytes(SubSeq(x, at + 1, g - 1)) ELSE <<105, 110, 118, 97, 108, 105, 100>>))    \* @  invalid

\* The names of the header lines that are counted.
SafeNames == {
    <<97, 98, 117, 115, 101, 45, 114, 101, 112, 111, 114, 116, 115, 45, 116, 111>>,    \* abuse-reports-to
    <<100, 97, 116, 101>>,    \* date
    <<101, 114, 114, 111, 114, 115, 45, 116, 111>>,    \* errors-to
    <<102, 114, 111, 109>>,    \* from
    <<105, 109, 112, 111, 114, 116, 97, 110, 99, 101>>,    \* importance
    <<105, 110, 45, 114, 101, 112, 108, 121, 45, 116, 111>>,    \* in-reply-to
    <<109, 101, 115, 115, 97, 103, 101, 45, 105, 100>>,    \* message-id
    <<109, 105, 109, 101, 45, 118, 101, 114, 115, 105, 111, 110>>,    \* mime-version
    <<111, 114, 103, 97, 110, 105, 122, 97, 116, 105, 111, 110>>,    \* organization
    <<114, 101, 99, 101, 105, 118, 101, 100>>,    \* received
    <<114, 101, 112, 108, 121, 45, 116, 111>>,    \* reply-to
    <<114, 101, 116, 117, 114, 110, 45, 112, 97, 116, 104>>,    \* return-path
    <<115, 117, 98, 106, 101, 99, 116>>,    \* subject
    <<116, 111>>,    \* to
    <<117, 115, 101, 114, 45, 97, 103, 101, 110, 116>>,    \* user-agent
    <<120, 45, 97, 98, 117, 115, 101, 45, 105, 110, 102, 111>>,    \* x-abuse-info
    <<120, 45, 99, 111, 109, 112, 108, 97, 105, 110, 116, 115, 45, 116, 111>>,    \* x-complaints-to
    <<120, 45, 102, 97, 99, 101>>}    \* x-face

\* How often each header line occurs, by its exact spelling.
Lines(names, Counted(_)) ==
    {One(<<104, 101, 97, 100, 101, 114, 58>> \o Bytes(n) \o <<58>> \o Number(Len(SelectSeq(names, LAMBDA x : x = n)))) :    \* header:
        n \in {m \in SetOf(names) : Counted(LowerText(m))}}

\* One part: type, and kind, charset, disposition, filename: sequences of at most one
Part(p) ==
    {One(<<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101, 58>> \o Bytes(LowerText(p.type)))}    \* content-type:
    \cup Ones(Pre(<<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101, 47, 116, 121, 112, 101, 58>>, [k \in DOMAIN p.kind |-> Bytes(LowerText(p.kind[k]))]))    \* content-type/type:
    \cup Ones(Pre(<<99, 104, 97, 114, 115, 101, 116, 58>>, [k \in DOMAIN p.charset |-> Bytes(LowerText(p.charset[k]))]))    \* charset:
    \cup Ones(Pre(<<99, 111, 110, 116, 101, 110, 116, 45, 100, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110, 58>>, [k \in DOMAIN p.disposition |-> Bytes(LowerText(p.disposition[k]))]))    \* content-disposition:
    \cup Ones(Pre(<<102, 105, 108, 101, 110, 97, 109, 101, 58>>, Flat([k \in DOMAIN p.filename |-> FileNameClues(Bytes(p.filename[k]))])))    \* filename:
PartsOf(m) == UNION {Part(p) : p \in SetOf(m.parts)}

\* Words of all header lines but some (only on request): [name, text]
Basic(m) == UNION {IF h.skip = 1 THEN {} ELSE Words(Bytes(LowerText(h.name)) \o <<58>>, h.text) : h \in SetOf(m.heads)}    \* :

From == <<102, 114, 111, 109>>
To == <<116, 111>>
Cc == <<99, 99>>
Sender == <<115, 101, 110, 100, 101, 114>>
ReplyTo == <<114, 101, 112, 108, 121, 45, 116, 111>>
Fields(m) == Address(From, m.from) \cup Address(To, m.to) \cup Address(Cc, m.cc) \cup Address(Sender, m.sender) \cup Address(ReplyTo, m.replyto)

NamesOf(m) == [k \in DOMAIN m.heads |-> m.heads[k].name]
\* Everything a message demands.
Usual(m) ==
    Subject(m.subject) \cup Fields(m) \cup Recipients(To, m.to) \cup Recipients(Cc, m.cc)
    \cup {Mailer(m.mailer), MessageId(m.msgid)} \cup Lines(NamesOf(m), LAMBDA n : n \in SafeNames)
Demands(m) ==
    IF m.basic = 2 THEN Basic(m)
    ELSE PartsOf(m) \cup Usual(m) \cup (IF m.basic = 1 THEN Basic(m) ELSE {})
\* Tokens of the parts may come even if only the words of the lines are asked for.
Optional(m) == IF m.basic = 2 THEN UNION UNION PartsOf(m) ELSE {}

Meets(got, ds) == \A d \in ds : \E alt \in d : alt \subseteq got
Missing(got, ds) == {d \in ds : ~\E alt \in d : alt \subseteq got}
Extra(got, ds, more) == got \ (UNION UNION ds \cup more)
=============================================================================
