--------------------------- MODULE Trace_Directive ---------------------------
EXTENDS Directive, Json, IOUtils
VARIABLES ep, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<read, phase, category, command, gap, ep, bad>>
E == Eps[ep]
TInit == DInit /\ ep = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Eps)
    /\ IF Len(read) < Len(E.text)
       THEN Feed(E.text[Len(read) + 1]) /\ UNCHANGED <<ep, bad>>
       ELSE /\ read' = <<>> /\ phase' = "start" /\ category' = <<>> /\ command' = <<>> /\ gap' = <<>> /\ ep' = ep + 1
            /\ IF E.parse = Outcome /\ E.special = Special(read) THEN bad' = bad
               ELSE PrintT(<<"BAD", ToJson([ep |-> ep, parse |-> Outcome, special |-> Special(read)])>>) /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
