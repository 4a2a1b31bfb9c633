---------------------------- MODULE Trace_RFormat ----------------------------
(* The formatter's output for random programs is the one the specification says. *)
EXTENDS RFormat, Json, IOUtils
Episodes == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, bad
tvars == <<ep, bad>>
E == Episodes[ep]
TInit == ep = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Episodes)
    /\ LET want == Format(E.p, E.o) IN
       IF E.res = "ok" /\ want = E.out THEN bad' = bad
       ELSE bad' = bad + 1 /\ PrintT(<<"BAD", ToJson([ep |-> ep, want |-> want])>>)
    /\ ep' = ep + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Episodes) => PrintT(<<"DONE", ToJson(Len(Episodes))>>)
=============================================================================
