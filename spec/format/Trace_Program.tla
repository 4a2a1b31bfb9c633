---------------------------- MODULE Trace_Program ----------------------------
(* What formatting keeps of random programs: WHAT is "program", "comments" (each *)
(* of them once), "order" (and in the same order) or "assign" (the operators).   *)
EXTENDS Program, Json, IOUtils
Episodes == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, bad
tvars == <<ep, bad>>
E == Episodes[ep]
What == IOEnv.WHAT
Holds ==
    /\ E.res = "ok"
    /\ E.read.ok
    /\ CASE What = "program" ->
                LET one == E.o.assign # "preserve" IN Normal(E.read.tree, one) = Normal(Cst(E.p), one)
         [] What = "comments" -> SameBag(AllApart(E.read.comments), E.comments)
         [] What = "order" -> E.read.comments = E.comments
         [] What = "assign" -> Normal(E.read.tree, FALSE) = Normal(Assigned(Cst(E.p), TRUE, E.o.assign), FALSE)
TInit == ep = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Episodes)
    /\ IF Holds THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT(<<"BAD", ToJson([ep |-> ep])>>)
    /\ ep' = ep + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Episodes) => PrintT(<<"DONE", ToJson(Len(Episodes))>>)
=============================================================================
