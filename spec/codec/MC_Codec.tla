------------------------------ MODULE MC_Codec ------------------------------
(* Every stream of up to Frames frames, cut into chunks in every way.                *)
EXTENDS Codec, Json, IOUtils
CONSTANTS Frames, Sizes, Kinds

Field(name, value) == name \o <<58, SP>> \o value \o CRLF
Plain(body) == Encode(body)
Typed(type, body) == Field(ContentType, type) \o Encode(body)
GoodType == <<97, 59, 32>> \o Charset \o <<117, 116, 102, 45, 56>>    \* a; charset=utf-8
\* bytes, and the message in them (or none)
Frame(k) == CASE k = "one" -> [bytes |-> Plain(<<55>>), msg |-> <<55>>]
              [] k = "typed" -> [bytes |-> Typed(GoodType, <<34, 195, 169, 34>>), msg |-> <<34, 195, 169, 34>>]
              [] k = "spaced" -> [bytes |-> Plain(<<91, 32, 49, 13, 10, 93>>), msg |-> <<91, 49, 93>>]
              [] k = "tricky" -> [bytes |-> Plain(<<34>> \o ContentLength \o <<34>>), msg |-> <<34>> \o ContentLength \o <<34>>]
              [] k = "empty" -> [bytes |-> Plain(<<>>), msg |-> <<>>]
              [] k = "json" -> [bytes |-> Plain(<<123, 93>>), msg |-> <<>>]
              [] k = "utf8" -> [bytes |-> Plain(<<255>>), msg |-> <<>>]
              [] k = "length" -> [bytes |-> Field(ContentLength, <<120>>) \o CRLF \o <<123, 125>>, msg |-> <<>>]
              [] k = "type" -> [bytes |-> Field(ContentLength, <<50>>) \o Field(ContentType, <<97>>) \o CRLF \o <<123, 125>>, msg |-> <<>>]
              [] k = "other" -> [bytes |-> Field(<<65>>, <<98>>) \o CRLF, msg |-> <<>>]
              \* too many headers: what follows the length is lost with it, a length that comes last is found
              [] k = "three" -> [bytes |-> Field(ContentLength, <<49>>) \o Field(<<65>>, <<98>>) \o Field(<<65>>, <<98>>) \o CRLF \o <<56>>, msg |-> <<>>]
              [] k = "third" -> [bytes |-> Field(<<65>>, <<98>>) \o Field(<<65>>, <<98>>) \o Plain(<<56>>), msg |-> <<56>>]
              [] k = "junk" -> [bytes |-> <<123, 34, 97, 34>>, msg |-> <<>>]
              [] k = "word" -> [bytes |-> <<97, 98>>, msg |-> <<>>]
WellFormed == {"one", "typed", "spaced", "tricky", "empty"}

RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN <<>> ELSE Frame(Head(s)).bytes \o Bytes(Tail(s))
\* The messages of a stream, each with the position of its last byte.
RECURSIVE Msgs(_, _)
Msgs(s, off) ==
    IF s = <<>> THEN <<>>
    ELSE LET f == Frame(Head(s)) e == off + Len(f.bytes) IN
         (IF f.msg = <<>> THEN <<>> ELSE <<[msg |-> f.msg, end |-> e]>>) \o Msgs(Tail(s), e)

VARIABLES stream, fed, idle, out, errs
vars == <<buf, want, stream, fed, idle, out, errs>>
Streams == UNION {[1..n -> Kinds] : n \in 1..Frames}
Init == CInit /\ stream \in Streams /\ fed = 0 /\ idle = TRUE /\ out = <<>> /\ errs = 0
Feed(k) ==
    /\ idle /\ fed + k <= Len(Bytes(stream))
    /\ Receive(SubSeq(Bytes(stream), fed + 1, fed + k))
    /\ fed' = fed + k /\ idle' = FALSE /\ UNCHANGED <<stream, out, errs>>
Poll ==
    /\ ~idle /\ Ask
    /\ LET d == Decode(buf, want) IN
       /\ out' = IF d.kind = "msg" THEN Append(out, d.msg) ELSE out
       /\ errs' = IF d.kind = "err" THEN 1 ELSE errs
       /\ idle' = (d.kind = "none" \/ (d.kind = "err" /\ d.buf = buf /\ d.want = want))
    /\ UNCHANGED <<stream, fed>>
Next == Poll \/ \E k \in Sizes : Feed(k)
Spec == Init /\ [][Next]_vars

\* When the decoder has nothing more to say, it has delivered every message whose last byte it was given.
Due == LET ms == Msgs(stream, 0) IN
       LET RECURSIVE G(_)
           G(i) == IF i > Len(ms) \/ ms[i].end > fed THEN <<>> ELSE <<ms[i].msg>> \o G(i + 1)
       IN G(1)
Prompt == idle => out = Due
\* Well-formed streams make no errors and leave nothing behind.
Clean == Range(stream) \subseteq WellFormed => errs = 0 /\ (idle /\ fed = Len(Bytes(stream)) => buf = <<>> /\ want = -1)
Emit == IF "EMIT" \in DOMAIN IOEnv /\ fed = 0
        THEN PrintT(<<"CASE", ToJson([bytes |-> Bytes(stream), msgs |-> Msgs(stream, 0), kinds |-> stream,
                                      clean |-> Range(stream) \subseteq WellFormed])>>) ELSE TRUE
=============================================================================
