-------------------------------- MODULE Codec --------------------------------
(* The framing of messages on the wire of the language server protocol: a decoder    *)
(* that is fed bytes in chunks of any size and asked for messages in between.        *)
(*                                                                                   *)
(*   Content-Length: 2 CR LF CR LF []                                                *)
(*                                                                                   *)
(* Everything here is bytes.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

HT == 9
LF == 10
CR == 13
SP == 32
Range(s) == {s[i] : i \in 1..Len(s)}
Digit == 48..57
Alpha == (65..90) \cup (97..122)
Token == Alpha \cup Digit \cup {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
ValueChar == {HT} \cup (32..126) \cup (128..255)
ContentLength == <<67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104>>
ContentType == <<67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101>>
Charset == <<99, 104, 97, 114, 115, 101, 116, 61>>          \* charset=
Utf8Names == {<<117, 116, 102, 45, 56>>, <<117, 116, 102, 56>>}
CRLF == <<CR, LF>>

At(b, i) == IF i <= Len(b) THEN b[i] ELSE -1
From(b, i) == SubSeq(b, i, Len(b))
StartsWith(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
RECURSIVE SpanFrom(_, _, _)
\* The first position from i on whose byte is not in S.
SpanFrom(b, i, S) == IF i <= Len(b) /\ b[i] \in S THEN SpanFrom(b, i + 1, S) ELSE i
RECURSIVE DropWhile(_, _)
DropWhile(t, S) == IF t # <<>> /\ Head(t) \in S THEN DropWhile(Tail(t), S) ELSE t
RECURSIVE DropBack(_, _)
DropBack(t, S) == IF t # <<>> /\ t[Len(t)] \in S THEN DropBack(SubSeq(t, 1, Len(t) - 1), S) ELSE t
Trim(t, S) == DropBack(DropWhile(t, S), S)

RECURSIVE Find(_, _, _)
\* The first position from i on where p is found, or 0.
Find(b, p, i) ==
    IF i + Len(p) - 1 > Len(b) THEN 0
    ELSE IF b[i] = p[1] /\ SubSeq(b, i, i + Len(p) - 1) = p THEN i ELSE Find(b, p, i + 1)

RECURSIVE Split(_, _, _)
Split(t, c, cur) == IF t = <<>> THEN <<cur>>
                    ELSE IF Head(t) = c THEN <<cur>> \o Split(Tail(t), c, <<>>)
                    ELSE Split(Tail(t), c, Append(cur, Head(t)))

-----------------------------------------------------------------------------
(* UTF-8 *)
Cont == 128..191
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
    IF i > Len(b) THEN TRUE
    ELSE LET c == b[i] IN
         IF c < 128 THEN Utf8From(b, i + 1)
         ELSE IF c \in 194..223 THEN At(b, i + 1) \in Cont /\ Utf8From(b, i + 2)
         ELSE IF c \in 224..239
         THEN /\ At(b, i + 1) \in (IF c = 224 THEN 160..191 ELSE IF c = 237 THEN 128..159 ELSE Cont)
              /\ At(b, i + 2) \in Cont /\ Utf8From(b, i + 3)
         ELSE IF c \in 240..244
         THEN /\ At(b, i + 1) \in (IF c = 240 THEN 144..191 ELSE IF c = 244 THEN 128..143 ELSE Cont)
              /\ At(b, i + 2) \in Cont /\ At(b, i + 3) \in Cont /\ Utf8From(b, i + 4)
         ELSE FALSE
IsUtf8(b) == Utf8From(b, 1)

-----------------------------------------------------------------------------
(* JSON: a value read from position i is [ok, next, val], where `val` is its text without   *)
(* insignificant white space and with the escapes in strings resolved. Numbers are whole.   *)
White == {HT, LF, CR, SP}
Quote == 34
No == [ok |-> FALSE, next |-> 0, val |-> <<>>]
Ok(n, v) == [ok |-> TRUE, next |-> n, val |-> v]
Skip(b, i) == SpanFrom(b, i, White)
Unescaped(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
                  [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
RECURSIVE Str(_, _, _)
Str(b, i, acc) ==
    IF i > Len(b) \/ b[i] < 32 THEN No
    ELSE IF b[i] = Quote THEN Ok(i + 1, Append(acc, Quote))
    ELSE IF b[i] = 92
    THEN IF i = Len(b) \/ Unescaped(b[i + 1]) = -1 THEN No ELSE Str(b, i + 2, Append(acc, Unescaped(b[i + 1])))
    ELSE Str(b, i + 1, Append(acc, b[i]))
Word(b, i, w) == IF i + Len(w) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(w) - 1) = w THEN Ok(i + Len(w), w) ELSE No
RECURSIVE Val(_, _), Items(_, _, _), Members(_, _, _)
Val(b, i0) ==
    LET i == Skip(b, i0) c == At(b, i) IN
    CASE c = Quote -> Str(b, i + 1, <<Quote>>)
      [] c \in Digit ->
            LET n == SpanFrom(b, i, Digit) IN
            IF c = 48 /\ n > i + 1 THEN No ELSE Ok(n, SubSeq(b, i, n - 1))
      [] c = 116 -> Word(b, i, <<116, 114, 117, 101>>)
      [] c = 102 -> Word(b, i, <<102, 97, 108, 115, 101>>)
      [] c = 110 -> Word(b, i, <<110, 117, 108, 108>>)
      [] c = 91 -> IF At(b, Skip(b, i + 1)) = 93 THEN Ok(Skip(b, i + 1) + 1, <<91, 93>>) ELSE Items(b, i + 1, <<91>>)
      [] c = 123 -> IF At(b, Skip(b, i + 1)) = 125 THEN Ok(Skip(b, i + 1) + 1, <<123, 125>>) ELSE Members(b, i + 1, <<123>>)
      [] OTHER -> No
Items(b, i, acc) ==
    LET v == Val(b, i) j == Skip(b, v.next) IN
    IF ~v.ok THEN No
    ELSE IF At(b, j) = 44 THEN Items(b, j + 1, acc \o v.val \o <<44>>)
    ELSE IF At(b, j) = 93 THEN Ok(j + 1, acc \o v.val \o <<93>>)
    ELSE No
Members(b, i0, acc) ==
    LET i == Skip(b, i0) k == Str(b, i + 1, <<Quote>>) IN
    IF At(b, i) # Quote \/ ~k.ok THEN No
    ELSE LET c == Skip(b, k.next) v == Val(b, c + 1) j == Skip(b, v.next) IN
         IF At(b, c) # 58 \/ ~v.ok THEN No
         ELSE IF At(b, j) = 44 THEN Members(b, j + 1, acc \o k.val \o <<58>> \o v.val \o <<44>>)
         ELSE IF At(b, j) = 125 THEN Ok(j + 1, acc \o k.val \o <<58>> \o v.val \o <<125>>)
         ELSE No
Document(b) == LET v == Val(b, 1) IN IF v.ok /\ Skip(b, v.next) = Len(b) + 1 THEN v ELSE No

-----------------------------------------------------------------------------
(* The header block at the front of a buffer: complete, still partial, or malformed. *)
MaxHeaders == 2
RECURSIVE Block(_, _, _)
Block(b, i, hs) ==
    LET Partial == [st |-> "partial", len |-> 0, headers |-> <<>>]
        Bad == [st |-> "error", len |-> 0, headers |-> <<>>]
        c == At(b, i)
    IN IF c = -1 THEN Partial
       ELSE IF c = LF THEN [st |-> "complete", len |-> i, headers |-> hs]
       ELSE IF c = CR
       THEN IF At(b, i + 1) = -1 THEN Partial
            ELSE IF At(b, i + 1) = LF THEN [st |-> "complete", len |-> i + 1, headers |-> hs] ELSE Bad
       ELSE IF c \notin Token THEN Bad
       ELSE LET colon == SpanFrom(b, i, Token) IN
            IF At(b, colon) = -1 THEN Partial
            ELSE IF At(b, colon) # 58 THEN Bad
            ELSE LET v == SpanFrom(b, colon + 1, {SP, HT})
                     e == SpanFrom(b, v, ValueChar)
                     header == [name |-> SubSeq(b, i, colon - 1), value |-> DropBack(SubSeq(b, v, e - 1), {SP, HT})]
                     next == IF At(b, e) = CR THEN e + 2 ELSE e + 1
                 IN IF At(b, e) = -1 \/ (At(b, e) = CR /\ At(b, e + 1) = -1) THEN Partial
                    ELSE IF (At(b, e) = CR /\ At(b, e + 1) # LF) \/ At(b, e) \notin {CR, LF} THEN Bad
                    ELSE IF Len(hs) = MaxHeaders THEN Bad
                    ELSE Block(b, next, Append(hs, header))

Huge == 2000000000
RECURSIVE Number(_, _)
Number(ds, acc) == IF ds = <<>> THEN acc ELSE Number(Tail(ds), 10 * acc + Head(ds) - 48)
\* A length: digits (after one optional +). -1 when it is none or too large for 64 bits.
Length(t) ==
    LET ds0 == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t
        ds == DropWhile(ds0, {48})
    IN IF ds0 = <<>> \/ (\E i \in 1..Len(ds0) : ds0[i] \notin Digit) \/ Len(ds) > 20 THEN -1
       ELSE IF Len(ds) > 9 THEN Huge
       ELSE Number(ds, 0)

\* The first parameter `charset=` of a content type has to be UTF-8.
TypeOk(v) ==
    LET ps == [i \in 1..(Len(Split(v, 59, <<>>)) - 1) |-> Trim(Split(v, 59, <<>>)[i + 1], {SP, HT})]
        cs == {i \in 1..Len(ps) : StartsWith(ps[i], Charset)}
    IN cs # {} /\ From(ps[CHOOSE i \in cs : \A j \in cs : i <= j], Len(Charset) + 1) \in Utf8Names

\* What the headers say: a length, or the error in the first one that is wrong.
RECURSIVE Read(_, _)
Read(hs, len) ==
    IF hs = <<>> THEN (IF len = -1 THEN [err |-> "missing", len |-> -1] ELSE [err |-> "", len |-> len])
    ELSE LET h == Head(hs) IN
         IF h.name = ContentLength
         THEN IF ~IsUtf8(h.value) THEN [err |-> "utf8", len |-> -1]
              ELSE IF Length(h.value) = -1 THEN [err |-> "length", len |-> -1]
              ELSE Read(Tail(hs), Length(h.value))
         ELSE IF h.name = ContentType
         THEN IF ~IsUtf8(h.value) THEN [err |-> "utf8", len |-> -1]
              ELSE IF ~TypeOk(h.value) THEN [err |-> "type", len |-> -1]
              ELSE Read(Tail(hs), len)
         ELSE Read(Tail(hs), len)

-----------------------------------------------------------------------------
(* The decoder.                                                                      *)
CONSTANT Known     \* where the decoder is known to be wrong (known_findings.json); nowhere in the models
VARIABLES buf,     \* received and not consumed
          want     \* length of the message that is being received, or -1 when none is
cvars == <<buf, want>>
CInit == buf = <<>> /\ want = -1

\* Asked for a message: [kind, err, msg, buf, want]
RECURSIVE Decode(_, _)
Decode(b, w) ==
    IF w # -1
    THEN IF Len(b) < w THEN [kind |-> "none", err |-> "", msg |-> <<>>, buf |-> b, want |-> w]
         ELSE LET body == SubSeq(b, 1, w) rest == From(b, w + 1) j == Document(body) IN
              IF ~IsUtf8(body) /\ "utf8" \in Known
              THEN [kind |-> "err", err |-> "utf8", msg |-> <<>>, buf |-> b, want |-> w]
              ELSE IF body = <<>> /\ "empty" \in Known
              THEN [kind |-> "none", err |-> "", msg |-> <<>>, buf |-> rest, want |-> -1]
              ELSE IF ~IsUtf8(body) THEN [kind |-> "err", err |-> "utf8", msg |-> <<>>, buf |-> rest, want |-> -1]
              ELSE IF body = <<>> THEN Decode(rest, -1)          \* an empty message is none
              ELSE IF j.ok THEN [kind |-> "msg", err |-> "", msg |-> j.val, buf |-> rest, want |-> -1]
              ELSE [kind |-> "err", err |-> "body", msg |-> <<>>, buf |-> rest, want |-> -1]
    ELSE LET h == Block(b, 1, <<>>) IN
         IF h.st = "partial" THEN [kind |-> "none", err |-> "", msg |-> <<>>, buf |-> b, want |-> -1]
         ELSE IF h.st = "error" /\ "headers" \in Known
         THEN [kind |-> "err", err |-> "headers", msg |-> <<>>, buf |-> b, want |-> -1]
         ELSE IF h.st = "error"
         THEN LET f == Find(b, ContentLength, 2) IN
              [kind |-> "err", err |-> "headers", msg |-> <<>>, want |-> -1,
               buf |-> IF f # 0 THEN From(b, f)
                       ELSE IF Len(b) < Len(ContentLength) THEN b ELSE From(b, Len(b) - Len(ContentLength) + 2)]
         ELSE LET r == Read(h.headers, -1) IN
              IF r.err = "" THEN Decode(From(b, h.len + 1), r.len)
              ELSE LET rest == IF r.err = "missing" THEN b ELSE From(b, h.len + 1)
                       f == Find(rest, ContentLength, 1)
                   IN [kind |-> "err", err |-> r.err, msg |-> <<>>, want |-> -1,
                       buf |-> IF f # 0 THEN From(rest, f) ELSE rest]

Receive(bytes) == buf' = buf \o bytes /\ UNCHANGED want
Ask == LET d == Decode(buf, want) IN buf' = d.buf /\ want' = d.want

-----------------------------------------------------------------------------
(* The encoder. *)
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
Encode(body) == ContentLength \o <<58, SP>> \o Decimal(Len(body)) \o CRLF \o CRLF \o body
=============================================================================
