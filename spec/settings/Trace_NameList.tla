--------------------------- MODULE Trace_NameList ---------------------------
EXTENDS NameList, Json, IOUtils
VARIABLES ep, i, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<list, probe, lo, hi, found, ep, i, bad>>
E == Eps[ep].events[i]
\* Sorted, with the same names. Whether repetitions are kept is not observable in lookups.
Same(s, l) == Sorted(s) /\ Range(s) = Range(l)
Step ==
    \/ E.op = "new" /\ New(E.names) /\ Same(E.slice, list')
    \/ E.op = "merge" /\ Merge(E.names) /\ Same(E.slice, list')
    \* All lookups of a probe set at once: what is in, in ascending order.
    \/ E.op = "contains" /\ UNCHANGED nvars /\ \A k \in 1..Len(E.probes) : E.ret[k] = Contains(list, E.probes[k])
    \/ E.op = "show" /\ UNCHANGED nvars /\ Same(E.ret, list)     \* names separated by ", ", split again
    \/ E.op = "equal" /\ UNCHANGED nvars
         /\ (Sort(E.names) = list => E.ret) /\ (Range(E.names) # Range(list) => ~E.ret)
    \* The built-in table functions, as indices of the driver's names.
    \/ E.op = "builtin" /\ New(E.names) /\ Same(E.ret, list') /\ Len(E.names) = 2
TInit == list = <<>> /\ probe = 0 /\ lo = 0 /\ hi = 0 /\ found = FALSE /\ ep = 1 /\ i = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Eps)
    /\ IF i > Len(Eps[ep].events)
       THEN New(<<>>) /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad
       ELSE IF ENABLED Step
       THEN Step /\ i' = i + 1 /\ UNCHANGED <<ep, bad>>
       ELSE /\ PrintT(<<"BAD", ToJson([ep |-> ep, event |-> i, state |-> list])>>)
            /\ New(<<>>) /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
InvSorted == Sorted(list)
=============================================================================
