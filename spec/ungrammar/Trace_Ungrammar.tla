-------------------------- MODULE Trace_Ungrammar --------------------------
(* Recorded readings of longer sources. One step lexes, then one step per token.      *)
EXTENDS Ungrammar, Json, IOUtils
VARIABLES ep, phase, toks, i, st, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<ep, phase, toks, i, st, bad>>
E == Eps[ep]
Same(want) ==
    /\ ~E.panic
    /\ E.got.ok = want.ok /\ E.got.nodes = want.nodes /\ E.got.tokens = want.tokens
    /\ E.got.err.kind = want.err.kind /\ E.got.err.arg = want.err.arg /\ E.got.err.loc = want.err.loc
TInit == ep = 1 /\ phase = "lex" /\ toks = <<>> /\ i = 1 /\ st = P0 /\ bad = 0
Close(want) ==
    /\ ep' = ep + 1 /\ phase' = "lex" /\ toks' = <<>> /\ i' = 1 /\ st' = P0
    /\ IF Same(want) THEN bad' = bad ELSE PrintT(<<"BAD", ToJson([ep |-> ep, want |-> want])>>) /\ bad' = bad + 1
TNext ==
    /\ ep <= Len(Eps)
    /\ IF phase = "lex"
       THEN LET l == Lex(E.text) IN
            IF l.mode = "failed" THEN Close([ok |-> FALSE, nodes |-> <<>>, tokens |-> <<>>, err |-> l.err])
            ELSE phase' = "parse" /\ toks' = l.toks /\ UNCHANGED <<ep, i, st, bad>>
       ELSE IF i <= Len(toks) /\ st.mode # "failed"
       THEN st' = ParseStep(st, toks[i], LookAt(toks, i)) /\ i' = i + 1 /\ UNCHANGED <<ep, phase, toks, bad>>
       ELSE Close(Result(Finish(st)))
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
