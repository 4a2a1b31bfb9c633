---------------------------- MODULE MC_Directive ----------------------------
(* All comments of up to MaxChunks pieces: the words that matter and separators.    *)
EXTENDS Directive, Json, IOUtils
CONSTANTS MaxChunks, Rich
VARIABLES chunks, todo
vars == <<read, phase, category, command, gap, chunks, todo>>

Base == {<<Hash>>, <<32>>, Fmt, <<Colon>>, Skip, <<102, 105, 108, 101>>, Table, <<120>>}
More == {<<9>>, <<70, 109, 116>>, GeneratedBy, <<12288>>, <<233>>, <<10>>}
Pieces == IF Rich THEN Base \cup More ELSE Base

Init == DInit /\ chunks = 0 /\ todo = <<>>
Next ==
    \/ /\ todo = <<>> /\ chunks < MaxChunks
       /\ \E p \in Pieces : todo' = p
       /\ chunks' = chunks + 1
       /\ UNCHANGED dvars
    \/ /\ todo # <<>> /\ Feed(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED chunks
Spec == Init /\ [][Next]_vars

InvAgrees == Outcome = Parse(read)
InvPhases == /\ (phase = "no" => ~IsComment(read))
             /\ (command # <<>> => command[Len(command)] \notin White /\ command[1] \notin White)
             /\ (phase = "category" => category[1] \notin White \cup {Colon})
InvExclusive == Special(read) # "none" => Parse(read) = "none"
Emit == IF "EMIT" \in DOMAIN IOEnv /\ todo = <<>> THEN
    PrintT(<<"CASE", ToJson([text |-> read, parse |-> Parse(read), special |-> Special(read)])>>)
    ELSE TRUE
=============================================================================
