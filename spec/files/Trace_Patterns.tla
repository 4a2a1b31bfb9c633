--------------------------- MODULE Trace_Patterns ---------------------------
(* Episodes: a list of patterns, then questions. Built-in lists are named instead.   *)
EXTENDS Patterns, Json, IOUtils
VARIABLES ep, i, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<lines, dir, ep, i, bad>>
E == Eps[ep].events[i]
LinesOf(k) == IF Eps[k].list = "default-exclude" THEN DefaultExclude
              ELSE IF Eps[k].list = "default-include" THEN DefaultInclude ELSE Eps[k].lines
Step ==
    \/ E.op = "ask" /\ E.matched = Matched(lines, E.path, E.dir) /\ E.climb = Climb(lines, E.path, E.dir)
    \* A walk into the tree, one directory after the other, until it stops.
    \/ E.op = "walk" /\ E.entered = Cardinality({k \in 1..Len(E.path) :
            \A j \in 1..k : ~Matched(lines, SubSeq(E.path, 1, j), TRUE)})
TInit == ep = 1 /\ i = 1 /\ bad = 0 /\ dir = <<>> /\ lines = LinesOf(1)
Turn == dir' = <<>> /\ ep' = ep + 1 /\ i' = 1 /\ lines' = (IF ep < Len(Eps) THEN LinesOf(ep + 1) ELSE <<>>)
TNext ==
    /\ ep <= Len(Eps)
    /\ IF i > Len(Eps[ep].events) THEN Turn /\ bad' = bad
       ELSE IF Step THEN i' = i + 1 /\ UNCHANGED <<lines, dir, ep, bad>>
       ELSE PrintT(<<"BAD", ToJson([ep |-> ep, event |-> i])>>) /\ Turn /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
