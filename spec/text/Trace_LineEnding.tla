--------------------------- MODULE Trace_LineEnding ---------------------------
(* Recorded conversions of longer texts. The scanner of the specification is run on *)
(* each, a character per step, and its final state is compared with what was seen.  *)
EXTENDS LineEnding, Json, IOUtils
VARIABLES ep, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<read, out, pend, style, ep, bad>>
E == Eps[ep]

Accept ==
    /\ ~E.panic
    /\ E.infer = Detected
    /\ E.normalize = Flushed
    /\ E.normalize_ref = Flushed
    /\ \A i \in 1..Len(E.finals) : E.finals[i].result = Finalize(E.finals[i].option, read)

TInit == LEInit /\ ep = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Eps)
    /\ IF Len(read) < Len(E.text)
       THEN Feed(E.text[Len(read) + 1]) /\ UNCHANGED <<ep, bad>>
       ELSE /\ read' = <<>> /\ out' = <<>> /\ pend' = FALSE /\ style' = "none" /\ ep' = ep + 1
            /\ IF Accept THEN bad' = bad
               ELSE PrintT(<<"BAD", ToJson([ep |-> ep, infer |-> Detected, normalize |-> Flushed])>>) /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
