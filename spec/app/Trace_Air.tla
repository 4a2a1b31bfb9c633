------------------------------ MODULE Trace_Air ------------------------------
(* Episodes recorded from the real command: a project, then runs and edits.          *)
EXTENDS Air, Json, IOUtils
VARIABLES ep, i, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<tree, ep, i, bad>>
KnownSet == IF "KNOWN" \notin DOMAIN IOEnv THEN {}
            ELSE IF IOEnv.KNOWN = "all" THEN {"parents"} ELSE {IOEnv.KNOWN}
E0 == Eps[ep].events[i]
\* What a run was seen to deal with
Named(g) == Rng(g.listed) \cup {x.path : x \in Rng(g.errors)} \cup Rng(g.touched)
E == IF E0.op # "run" THEN E0
     ELSE E0 @@ [seen |-> Named(E0.got) \cup {p \in DOMAIN tree : tree[p].kind = "link" /\ tree[p].to \in Rng(E0.got.touched)}]
TreeOf(k) == [p \in {n[1] : n \in Rng(Eps[k].nodes)} |-> (CHOOSE n \in Rng(Eps[k].nodes) : n[1] = p)[2]]
Seen(got, errors) ==
    /\ got.odd = <<>> /\ got.moved = 0
    /\ Rng(got.errors) = errors
RunPaths ==
    LET g == E.got
        w == Paths(tree, E)
        new == {p \in DOMAIN tree : w.tree[p] # tree[p]}
    IN /\ g.exit = w.exit /\ g.hard = w.hard /\ g.out = Silent
       /\ w.hard \/ (Seen(g, w.errors) /\ Rng(g.listed) = w.listed)
       \* Exactly what changes is written, the rest is not even touched.
       /\ Rng(g.changed) = {<<p, w.tree[p].text>> : p \in new}
       /\ Rng(g.touched) = new /\ g.moved = 0
RunStdin ==
    LET g == E.got w == Stdin(tree, E) IN
    /\ g.exit = w.exit /\ g.hard = w.hard /\ g.out = w.out
    /\ g.moved = 0 /\ g.changed = <<>> /\ g.touched = <<>> /\ g.odd = <<>> /\ g.listed = <<>>
\* What a description of configuration files makes of the one there is
Schema == E.accepted = (\A p \in DOMAIN tree : "cfg" \in DOMAIN tree[p] => Valid(tree[p].cfg))
Fine == IF E.op = "schema" THEN Schema ELSE E.op = "run" => IF E.stdin THEN RunStdin ELSE RunPaths
Step == IF E.op = "schema" THEN UNCHANGED tree
        ELSE IF E.op = "edit" THEN Edit(E.path, E.node)
        ELSE IF E.op = "del" THEN Delete(E.path)
        ELSE Run(E)
TInit == ep = 1 /\ i = 1 /\ bad = 0 /\ tree = TreeOf(1)
Turn == ep' = ep + 1 /\ i' = 1 /\ tree' = (IF ep < Len(Eps) THEN TreeOf(ep + 1) ELSE <<>>)
Expected == IF E.op # "run" THEN "" ELSE
    IF E.stdin THEN ToString(Stdin(tree, E))
    ELSE LET w == Paths(tree, E) IN ToString([w EXCEPT !.tree = {p \in DOMAIN tree : w.tree[p] # tree[p]}])
TNext ==
    /\ ep <= Len(Eps)
    /\ IF i > Len(Eps[ep].events) THEN Turn /\ bad' = bad
       ELSE IF Fine THEN Step /\ i' = i + 1 /\ UNCHANGED <<ep, bad>>
       ELSE PrintT(<<"BAD", ToJson([ep |-> ep, event |-> i, expected |-> Expected])>>) /\ Turn /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
