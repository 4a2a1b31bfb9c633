---------------------------- MODULE Trace_Paths ----------------------------
EXTENDS Paths, Json, IOUtils
VARIABLES ep, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<stack, todo, ep, bad>>
E == Eps[ep]
Start(k) == IF k > Len(Eps) THEN stack' = <<>> /\ todo' = <<>>
            ELSE stack' = (IF Eps[k].path.abs THEN <<>> ELSE Eps[k].cwd) /\ todo' = Eps[k].path.comps
Accept ==
    /\ ~E.panic /\ E.agree
    /\ E.normal = [abs |-> TRUE, comps |-> stack]
    /\ E.again = E.normal                               \* normalizing is idempotent
    /\ E.lossy \/ E.relative = Relativize(E.cwd, stack)
    /\ E.r = HasRExtension(E.path)
TInit == ep = 1 /\ bad = 0 /\ stack = (IF Eps[1].path.abs THEN <<>> ELSE Eps[1].cwd) /\ todo = Eps[1].path.comps
TNext ==
    /\ ep <= Len(Eps)
    /\ IF todo # <<>> THEN Walk(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<ep, bad>>
       ELSE /\ ep' = ep + 1 /\ Start(ep + 1)
            /\ IF Accept THEN bad' = bad
               ELSE PrintT(<<"BAD", ToJson([ep |-> ep, normal |-> stack, relative |-> Relativize(E.cwd, stack), r |-> HasRExtension(E.path)])>>) /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
