------------------------------ MODULE MC_Edits ------------------------------
(* Edits are added to a builder, one after the other.                               *)
EXTENDS Edits, Json, IOUtils
CONSTANTS MaxText, MaxOps
VARIABLES text, ops
A == 97
B == 98
W == 66560
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET m == Texts(n - 1) IN m \union {Append(s, p) : s \in m, p \in {A, W, LF}}
Fits(op) == \A n \in 1..Len(ops) : ~Overlap(ops[n], op) /\ ~(ops[n] = op /\ op.s < op.e)
                /\ (op.s < op.e => ~(ops[n].s > op.s /\ ops[n].s < op.e))
                /\ (ops[n].s < ops[n].e => ~(op.s > ops[n].s /\ op.s < ops[n].e))

Init == text \in Texts(MaxText) /\ ops = <<>>
Next == /\ Len(ops) < MaxOps /\ UNCHANGED text
        /\ \E s \in 0..Len(text) : \E e \in s..Len(text) : \E ins \in {<<>>, <<B>>, <<LF, B>>} :
               LET op == Op(s, e, IF ins = <<B>> THEN <<B + Len(ops)>> ELSE ins) IN Fits(op) /\ ops' = Append(ops, op)
Spec == Init /\ [][Next]_<<text, ops>>

Client(endings) == IF endings = "crlf" THEN Carriage(text) ELSE text
Ways == {"utf8", "utf16"} \X {"lf", "crlf"}

InvDisjoint == Disjoint(SortedOps(ops))
InvApply == /\ Apply(text, SortedOps(ops)) = Assembled(text, SortedOps(ops))
            /\ Apply(text, Finish(ops)) = Assembled(text, SortedOps(ops))
InvApart == \A n \in 1..(Len(Finish(ops)) - 1) : Finish(ops)[n].e < Finish(ops)[n + 1].s
\* The text in front of an offset is edited to what is in front of where the offset goes, or more was inserted there.
InvOffsets == \A o \in 0..Len(text) : LET to == MapOffset(Finish(ops), o) IN
    IF to = -1 THEN \E n \in 1..Len(Finish(ops)) : Finish(ops)[n].s < o /\ o < Finish(ops)[n].e
    ELSE SubSeq(Apply(text, Finish(ops)), 1, to)
             = Apply(SubSeq(text, 1, o), SelectSeq(Finish(ops), LAMBDA op : op.s < o))
\* The client ends up with the text the server had in mind, with the line ends it had.
InvSent == \A w \in Ways :
    /\ Legal(Client(w[2]), w[1], Sent(text, w[1], w[2], Finish(ops)))
    /\ LET new == Edited(Client(w[2]), w[1], Sent(text, w[1], w[2], Finish(ops))) IN
       /\ Normalize(new) = Apply(text, Finish(ops))
       /\ new = (IF w[2] = "crlf" THEN Carriage(Normalize(new)) ELSE Normalize(new))

Emit == ("EMIT" \in DOMAIN IOEnv /\ ops # <<>> /\ (Len(text) < 3 \/ Len(ops) < 3)) =>
    PrintT(<<"CASE", ToJson([text |-> text, ops |-> ops, indels |-> Finish(ops), applied |-> Apply(text, Finish(ops)),
        mapped |-> [o \in 1..(Len(text) + 1) |-> MapOffset(Finish(ops), o - 1)],
        touched |-> [o \in 1..(Len(text) + 1) |-> IF Touches(ops, o - 1) THEN 1 ELSE 0],
        utf8 |-> Sent(text, "utf8", "crlf", Finish(ops)), utf16 |-> Sent(text, "utf16", "lf", Finish(ops))])>>)
=============================================================================
