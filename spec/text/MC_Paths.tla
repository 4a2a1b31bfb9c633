------------------------------ MODULE MC_Paths ------------------------------
EXTENDS Paths, Json, IOUtils
CONSTANT MaxLen
VARIABLES cwd, p
vars == <<stack, todo, cwd, p>>
a == <<97>>
b == <<98, 46, 82>>
\* Real directories when cases are emitted for replay.
Cwds == IF "CWDS" \in DOMAIN IOEnv THEN LET L == ndJsonDeserialize(IOEnv.CWDS) IN {L[i].cwd : i \in 1..Len(L)}
        ELSE {<<>>, <<a>>, <<a, a>>, <<b, a>>}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {Append(s, c) : s \in Seqs(n - 1), c \in {a, b, DOT, UP}}
Paths == [abs : BOOLEAN, comps : Seqs(MaxLen)]
Init == /\ cwd \in Cwds
        /\ p \in Paths \cup {[abs |-> TRUE, comps |-> cwd \o s] : s \in Seqs(MaxLen - 1)}
        /\ stack = (IF p.abs THEN <<>> ELSE cwd) /\ todo = p.comps
Next == todo # <<>> /\ Walk(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<cwd, p>>
Spec == Init /\ [][Next]_vars

Abs(cs) == [abs |-> TRUE, comps |-> cs]
Done == todo = <<>>
InvWalk == Done => stack = Normalize(cwd, p)
InvClean == \A i \in 1..Len(stack) : stack[i] \notin {DOT, UP}
InvIdempotent == Done => \A c \in Cwds : Normalize(c, Abs(stack)) = stack
InvRoundTrip == Done => Normalize(cwd, Relativize(cwd, stack)) = stack
InvRelative == Done => (Relativize(cwd, stack).abs <=> ~IsPrefix(cwd, stack))
InvEscape == Done => (p.abs => \A c \in Cwds : Normalize(c, p) = stack)
InvExt == Done /\ stack # <<>> => (HasRExtension(Abs(stack)) <=> stack[Len(stack)] = b)
Emit == IF "EMIT" \in DOMAIN IOEnv /\ Done THEN
    PrintT(<<"CASE", ToJson([cwd |-> cwd, path |-> p, normal |-> stack, relative |-> Relativize(cwd, stack), r |-> HasRExtension(p)])>>)
    ELSE TRUE
=============================================================================
