--------------------------- MODULE Trace_Resolver ---------------------------
(* Recorded histories of a real resolver, checked against Resolver.                *)
EXTENDS Resolver, Json, IOUtils
VARIABLES ep, i, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<items, ep, i, bad>>

E == Eps[ep].events[i]
\* What the code was seen to contain after each call.
Seen == items' = E.items

Step ==
    \/ E.op = "add" /\ Add(E.path, E.v) /\ E.ret = Old(items, E.path) /\ Seen
    \/ E.op = "remove" /\ Remove(E.path) /\ E.ret = Old(items, E.path) /\ Seen
    \/ E.op = "clear" /\ Clear /\ Seen
    \/ E.op = "overwrite" /\ Overwrite(E.path, E.v) /\ E.ret = Matching(items, E.path) /\ Seen
    \/ E.op = "resolve" /\ UNCHANGED items /\ E.ret = Resolved(items, E.path) /\ E.ret = Closest(items, E.path) /\ Seen
    \/ E.op = "fallback" /\ UNCHANGED items /\ Seen
         /\ E.ret = (IF Resolved(items, E.path) = <<>> THEN Eps[ep].fallback ELSE Resolved(items, E.path)[1].value)
    \/ E.op = "matches" /\ UNCHANGED items /\ E.ret = Matching(items, E.path) /\ Seen
    \/ E.op = "len" /\ UNCHANGED items /\ E.ret = Len(items) /\ E.empty = (items = <<>>) /\ Seen

TInit == Init /\ ep = 1 /\ i = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Eps)
    /\ IF i > Len(Eps[ep].events)
       THEN items' = <<>> /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad
       ELSE IF ENABLED Step
       THEN Step /\ i' = i + 1 /\ UNCHANGED <<ep, bad>>
       ELSE /\ PrintT(<<"BAD", ToJson([ep |-> ep, event |-> i, state |-> items])>>)
            /\ items' = <<>> /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
InvSortedT == Sorted(items)
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
