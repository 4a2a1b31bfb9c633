----------------------------- MODULE Trace_Given -----------------------------
(* Given programs: WHAT is "program" (it is kept), "comments" (each of them once), *)
(* "again" (what was formatted is left alone) or "read" (nothing of it is lost).   *)
EXTENDS Program, Json, IOUtils
Episodes == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, bad
tvars == <<ep, bad>>
E == Episodes[ep]
What == IOEnv.WHAT
RECURSIVE Trimmed(_)
Trimmed(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) \in {" ", "\t"} THEN Trimmed(SubSeq(s, 1, Len(s) - 1)) ELSE s
Each1(cs) == AllApart([i \in DOMAIN cs |-> Trimmed(cs[i])])
Holds ==
    /\ E.before.ok /\ E.before.same /\ E.res = "ok"
    /\ CASE What = "program" ->
                LET one == E.style # "preserve" IN
                /\ E.read.ok
                /\ Normal(E.read.tree, one) = Normal(E.before.tree, one)
         [] What = "comments" -> E.read.ok /\ SameBag(Each1(E.read.comments), Each1(E.before.comments))
         [] What = "again" -> E.then = E.out /\ E.again
         [] What = "read" -> TRUE
TInit == ep = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Episodes)
    /\ IF Holds THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT(<<"BAD", ToJson([ep |-> ep])>>)
    /\ ep' = ep + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Episodes) => PrintT(<<"DONE", ToJson(Len(Episodes))>>)
=============================================================================
