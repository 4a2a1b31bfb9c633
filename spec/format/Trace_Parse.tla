----------------------------- MODULE Trace_Parse -----------------------------
(* What the parser makes of random programs: WHAT is "tree" or "trivia". *)
EXTENDS Program, Json, IOUtils
Episodes == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, bad
tvars == <<ep, bad>>
E == Episodes[ep]
Holds ==
    /\ E.read.ok
    /\ E.read.same
    /\ IF IOEnv.WHAT = "tree" THEN E.read.tree = Cst(E.p) ELSE E.read.trivia = Trivia(E.tokens, E.gaps)
TInit == ep = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Episodes)
    /\ IF Holds THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT(<<"BAD", ToJson([ep |-> ep])>>)
    /\ ep' = ep + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Episodes) => PrintT(<<"DONE", ToJson(Len(Episodes))>>)
=============================================================================
