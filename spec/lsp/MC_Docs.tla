------------------------------ MODULE MC_Docs ------------------------------
EXTENDS Docs, Json, IOUtils
CONSTANTS MaxText, MaxBatch, MaxInsert, MaxNotes
VARIABLES enc, open, notes, batch
mvars == <<client, server, index, last, enc, open, notes, batch>>
A == 97
E == 233
W == 66560
Keeps == "EMIT" \in DOMAIN IOEnv

Pieces == {<<A>>, <<E>>, <<W>>, <<LF>>, <<CR, LF>>}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET m == Texts(n - 1) IN m \union {s \o p : s \in m, p \in Pieces}
Insertions == Texts(MaxInsert)

Positions(t) == {Pos(t, enc, k) : k \in {k \in 0..Len(t) : ~(k > 0 /\ k < Len(t) /\ t[k] = CR /\ t[k + 1] = LF)}}

Init == /\ enc \in {"utf8", "utf16"} /\ open \in Texts(MaxText) /\ DInit(open) /\ notes = <<>> /\ batch = <<>>
Pushed(change) == batch' = Append(batch, change)
Next ==
    \/ /\ Len(batch) < MaxBatch /\ Len(notes) < MaxNotes
       /\ UNCHANGED <<enc, open, notes>>
       /\ \/ \E s, e \in Positions(client), t \in Insertions :
                 /\ ~Before(e, s)
                 /\ Edit(enc, s, e, t)
                 /\ Pushed([full |-> FALSE, start |-> s, end |-> e, text |-> t])
          \/ \E t \in Texts(1) : Full(t) /\ Pushed([full |-> TRUE, text |-> t])
    \/ /\ batch # <<>> /\ Done /\ UNCHANGED <<enc, open>> /\ batch' = <<>>
       /\ notes' = Append(notes, IF Keeps THEN batch ELSE <<>>)
Spec == Init /\ [][Next]_mvars
\* Without emission, what the batch was does not matter.
View == <<client, server, index, last, enc, Len(notes), IF Keeps THEN <<open, notes, batch>> ELSE Len(batch)>>

Folded == Keeps => LET F[n \in 0..Len(notes)] == IF n = 0 THEN open ELSE Changes(F[n - 1], enc, notes[n]) IN
                   batch = <<>> => client = F[Len(notes)]
Emit == Keeps /\ notes # <<>> /\ batch = <<>> /\ Len(notes) = MaxNotes =>
    PrintT(<<"CASE", ToJson([enc |-> enc, open |-> open, notes |-> notes, contents |-> server])>>)
=============================================================================
