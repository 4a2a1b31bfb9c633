----------------------------- MODULE Trace_Docs -----------------------------
(* Recorded histories of documents: what was sent, and what the server then had.    *)
EXTENDS Text, Json, IOUtils
VARIABLES ep, i, client, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<ep, i, client, bad>>
E == Eps[ep]
N == E.notes[i]

\* What the server was seen to have.
Seen(seen, t) ==
    /\ ~seen.panic
    /\ seen.contents = t
    /\ seen.parsed
    /\ \A p \in {seen.probes[k] : k \in 1..Len(seen.probes)} :
           /\ [line |-> p.line, character |-> p.character] = Pos(t, E.enc, p.offset)
           /\ p.back = p.offset

TInit == ep = 1 /\ i = 0 /\ client = <<>> /\ bad = 0
Reject == PrintT(<<"BAD", ToJson([ep |-> ep, note |-> i, contents |-> Normalize(client')])>>) /\ bad' = bad + 1
TNext ==
    /\ ep <= Len(Eps)
    /\ IF i > Len(E.notes)
       THEN ep' = ep + 1 /\ i' = 0 /\ client' = <<>> /\ bad' = bad
       ELSE IF i = 0
       THEN /\ client' = E.open
            /\ IF Seen(E.seen, Normalize(E.open)) /\ E.endings = Endings(E.open)
               THEN i' = 1 /\ UNCHANGED <<ep, bad>>
               ELSE Reject /\ ep' = ep + 1 /\ i' = 0
       ELSE /\ client' = Changes(client, E.enc, N.changes)
            /\ IF Seen(N.seen, Normalize(client')) /\ N.version = N.seen.version
               THEN i' = i + 1 /\ UNCHANGED <<ep, bad>>
               ELSE Reject /\ ep' = ep + 1 /\ i' = 0
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
