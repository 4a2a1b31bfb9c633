-------------------------------- MODULE Edits --------------------------------
(* Edits of a text: each replaces what is between two offsets of the original text.  *)
(* No two edits overlap. Several insertions at one place stand in the order given,   *)
(* in front of what else begins there.                                               *)
EXTENDS Text

Op(s, e, ins) == [s |-> s, e |-> e, ins |-> ins]
Earlier(a, b) == a.s < b.s \/ (a.s = b.s /\ a.e < b.e)
RECURSIVE InsertOp(_, _)
InsertOp(seq, op) ==
    IF seq = <<>> THEN <<op>>
    ELSE IF Earlier(op, seq[Len(seq)]) THEN Append(InsertOp(SubSeq(seq, 1, Len(seq) - 1), op), seq[Len(seq)])
    ELSE Append(seq, op)
RECURSIVE SortedOps(_)
SortedOps(ops) == IF ops = <<>> THEN <<>> ELSE InsertOp(SortedOps(SubSeq(ops, 1, Len(ops) - 1)), ops[Len(ops)])
Disjoint(seq) == \A n \in 1..(Len(seq) - 1) : seq[n].e <= seq[n + 1].s

\* One after the other, from the end of the text.
RECURSIVE Apply(_, _)
Apply(t, seq) ==
    IF seq = <<>> THEN t
    ELSE LET op == seq[Len(seq)] IN Apply(Splice(t, op.s, op.e, op.ins), SubSeq(seq, 1, Len(seq) - 1))
\* The same, put together from the front.
Assembled(t, seq) ==
    LET F[n \in 0..Len(seq)] ==
            IF n = 0 THEN <<>>
            ELSE F[n - 1] \o SubSeq(t, (IF n = 1 THEN 0 ELSE seq[n - 1].e) + 1, seq[n].s) \o seq[n].ins
    IN F[Len(seq)] \o SubSeq(t, (IF seq = <<>> THEN 0 ELSE seq[Len(seq)].e) + 1, Len(t))

\* Edits that touch are one.
RECURSIVE Coalesce(_)
Coalesce(seq) ==
    IF Len(seq) < 2 THEN seq
    ELSE LET front == Coalesce(SubSeq(seq, 1, Len(seq) - 1))
             a == front[Len(front)]
             b == seq[Len(seq)]
         IN IF a.e = b.s THEN Append(SubSeq(front, 1, Len(front) - 1), Op(a.s, b.e, a.ins \o b.ins))
            ELSE Append(front, b)
Finish(ops) == Coalesce(SortedOps(ops))

\* Where the character at an offset goes: nowhere (-1) if it and the one in front of it are replaced.
MapOffset(seq, o) ==
    IF \E n \in 1..Len(seq) : seq[n].s < o /\ o < seq[n].e THEN -1
    ELSE LET F[n \in 0..Len(seq)] ==
                 IF n = 0 THEN o
                 ELSE IF seq[n].s < o THEN F[n - 1] + Len(seq[n].ins) - (seq[n].e - seq[n].s) ELSE F[n - 1]
         IN F[Len(seq)]
\* Is an offset at or within something that is edited?
Touches(ops, o) == \E n \in 1..Len(ops) : ops[n].s <= o /\ o <= ops[n].e

\* The edits of both; what both delete, is deleted once.
RECURSIVE Merge(_, _)
Merge(a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE IF a[1].s <= b[1].s THEN <<a[1]>> \o Merge(Tail(a), b) ELSE <<b[1]>> \o Merge(a, Tail(b))
RECURSIVE Once(_)
Once(seq) ==
    IF Len(seq) < 2 THEN seq
    ELSE IF seq[1] = seq[2] /\ seq[1].s < seq[1].e THEN Once(Tail(seq))
    ELSE <<seq[1]>> \o Once(Tail(seq))
Overlap(a, b) == a # b /\ a.s < b.e /\ b.s < a.e
Overlaps(x, y) == \E m \in 1..Len(x), n \in 1..Len(y) : Overlap(x[m], y[n])
\* Whether edits that begin at one place are in each other's way depends on the order: it is left open.
Touching(x, y) == \E m \in 1..Len(x), n \in 1..Len(y) : x[m] # y[n] /\ x[m].s = y[n].s
Union(x, y) == Once(Merge(x, y))

-----------------------------------------------------------------------------
(* The protocol. *)
\* All edits mean the original text; those at one place are in order.
Edited(t, enc, edits) ==
    Apply(t, SortedOps([n \in 1..Len(edits) |->
        Op(At(t, enc, edits[n].start), At(t, enc, edits[n].end), edits[n].text)]))
Legal(t, enc, edits) ==
    /\ \A n \in 1..Len(edits) : Valid(t, enc, edits[n].start) /\ Valid(t, enc, edits[n].end)
    /\ Disjoint(SortedOps([n \in 1..Len(edits) |->
           Op(At(t, enc, edits[n].start), At(t, enc, edits[n].end), edits[n].text)]))
\* Edits of the server's text, as the client is told of them.
Sent(t, enc, endings, seq) ==
    [n \in 1..Len(seq) |-> [start |-> Pos(t, enc, seq[n].s), end |-> Pos(t, enc, seq[n].e),
                            text |-> IF endings = "crlf" THEN Carriage(seq[n].ins) ELSE seq[n].ins]]
=============================================================================
