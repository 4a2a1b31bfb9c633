-------------------------------- MODULE Docs --------------------------------
(* A document at the server. It has the text, with line feeds only, and an index of  *)
(* lines that positions are looked up in. The index is not remade for every change,  *)
(* but only when a change reaches lines at or below the one the previous change of   *)
(* the notification began at.                                                        *)
EXTENDS Text
VARIABLES client,   \* what the client has
          server,   \* what the server has
          index,    \* the text the index was made of
          last      \* the line at which the previous change of the notification began; -1: there was none
dvars == <<client, server, index, last>>

DInit(t) == client = t /\ server = Normalize(t) /\ index = Normalize(t) /\ last = -1

\* Is the index remade before a change that reaches down to `line`?
Remade(line) == last >= 0 /\ line >= last
Index(line) == IF Remade(line) THEN server ELSE index

Full(t) == client' = t /\ server' = Normalize(t) /\ last' = 0 /\ UNCHANGED index
\* Bytes in front of a position, according to a text.
Bytes(t, enc, p) == Size("utf8", SubSeq(t, 1, At(t, enc, p)))
OffsetOf(t, bytes) == CHOOSE k \in 0..Len(t) : Size("utf8", SubSeq(t, 1, k)) = bytes
Edit(enc, s, e, t) ==
    /\ client' = Splice(client, At(client, enc, s), At(client, enc, e), t)
    /\ index' = Index(e.line)
    /\ server' = Splice(server, OffsetOf(server, Bytes(Index(e.line), enc, s)),
                        OffsetOf(server, Bytes(Index(e.line), enc, e)), Normalize(t))
    /\ last' = s.line
\* The notification is over.
Done == index' = server /\ last' = -1 /\ UNCHANGED <<client, server>>

Synced == server = Normalize(client)
\* Above the last change, the index is as good as new.
Fresh == last = -1 => index = server
Above == \A n \in 0..(last - 1) :
    LET a == Starts(index) b == Starts(server) IN
    /\ n < Len(a) /\ n < Len(b) /\ a[n + 1] = b[n + 1]
    /\ SubSeq(index, a[n + 1] + 1, Stop(index, a, n)) = SubSeq(server, b[n + 1] + 1, Stop(server, b, n))
=============================================================================
