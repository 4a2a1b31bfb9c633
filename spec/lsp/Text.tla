-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of code points, positions in them (line and character, both   *)
(* from 0, as the language server protocol has them), and how they are edited.      *)
(* A line ends with LF or CRLF; a position is never behind its line's text.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CR == 13
LF == 10

\* What a character counts for in a position, in either encoding.
Units(enc, ch) ==
    IF enc = "utf8"
    THEN IF ch < 128 THEN 1 ELSE IF ch < 2048 THEN 2 ELSE IF ch < 65536 THEN 3 ELSE 4
    ELSE IF ch < 65536 THEN 1 ELSE 2
Size(enc, t) ==
    LET F[i \in 0..Len(t)] == IF i = 0 THEN 0 ELSE F[i - 1] + Units(enc, t[i]) IN F[Len(t)]

\* Exactly the CRs that are followed by a LF are dropped.
Normalize(t) ==
    LET Keep[i \in 0..Len(t)] ==
            IF i = 0 THEN <<>>
            ELSE IF t[i] = CR /\ i < Len(t) /\ t[i + 1] = LF THEN Keep[i - 1]
            ELSE Append(Keep[i - 1], t[i])
    IN IF \E i \in 1..Len(t) : t[i] = CR THEN Keep[Len(t)] ELSE t
\* Every line ends with CRLF.
Carriage(t) ==
    LET F[i \in 0..Len(t)] ==
            IF i = 0 THEN <<>> ELSE IF t[i] = LF THEN F[i - 1] \o <<CR, LF>> ELSE Append(F[i - 1], t[i])
    IN F[Len(t)]
\* The first line's ending.
Endings(t) ==
    LET lfs == {i \in 1..Len(t) : t[i] = LF} IN
    IF lfs = {} THEN "lf"
    ELSE LET i == CHOOSE i \in lfs : \A j \in lfs : i <= j IN IF i > 1 /\ t[i - 1] = CR THEN "crlf" ELSE "lf"

-----------------------------------------------------------------------------
\* An offset is the number of characters in front. The offsets at which lines start, in order.
Starts(t) ==
    LET F[i \in 0..Len(t)] == IF i = 0 THEN <<0>> ELSE IF t[i] = LF THEN Append(F[i - 1], i) ELSE F[i - 1] IN F[Len(t)]
Lines(t) == Len(Starts(t))
\* Where a line ends, its line end not included.
Stop(t, starts, line) ==
    IF line + 1 = Len(starts) THEN Len(t)
    ELSE LET lf == starts[line + 2] - 1 IN IF lf > starts[line + 1] /\ t[lf] = CR THEN lf - 1 ELSE lf

\* The offsets at a position: none or one.
Offsets(t, enc, p) ==
    LET starts == Starts(t) IN
    IF p.line >= Len(starts) THEN {}
    ELSE LET s == starts[p.line + 1]
             F[k \in s..Stop(t, starts, p.line)] == IF k = s THEN 0 ELSE F[k - 1] + Units(enc, t[k])
         IN {k \in DOMAIN F : F[k] = p.character}
Valid(t, enc, p) == Offsets(t, enc, p) # {}
At(t, enc, p) == CHOOSE k \in Offsets(t, enc, p) : TRUE
\* The position of an offset.
Pos(t, enc, k) ==
    LET starts == Starts(t)
        line == CHOOSE n \in 1..Len(starts) : starts[n] <= k /\ (n = Len(starts) \/ k < starts[n + 1])
    IN [line |-> line - 1, character |-> Size(enc, SubSeq(t, starts[line] + 1, k))]
Before(p, q) == p.line < q.line \/ (p.line = q.line /\ p.character < q.character)

\* `t` with what is between two offsets replaced.
Splice(t, i, j, s) == SubSeq(t, 1, i) \o s \o SubSeq(t, j + 1, Len(t))

-----------------------------------------------------------------------------
(* The client's document: changes of a notification are made one after the other. *)
Changed(t, enc, change) ==
    IF change.full THEN change.text
    ELSE Splice(t, At(t, enc, change.start), At(t, enc, change.end), change.text)
RECURSIVE Changes(_, _, _)
Changes(t, enc, changes) ==
    IF changes = <<>> THEN t ELSE Changes(Changed(t, enc, Head(changes)), enc, Tail(changes))
=============================================================================
