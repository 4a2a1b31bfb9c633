----------------------------- MODULE Trace_Again -----------------------------
(* Formatting is done once: what was formatted is left alone from then on.  A run *)
(* of formatting is a behaviour of one variable, the lines of the file, which     *)
(* changes at most once; and a file that is left alone is reported so.            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Episodes == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, bad
tvars == <<ep, bad>>
E == Episodes[ep]
Settled(f) == \A i \in 1..(Len(f) - 1) : i > 1 => f[i + 1] = f[i]
Holds == E.res = "ok" /\ Settled(<<E.text, E.out, E.then>>) /\ E.again
TInit == ep = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Episodes)
    /\ IF Holds THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT(<<"BAD", ToJson([ep |-> ep])>>)
    /\ ep' = ep + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Episodes) => PrintT(<<"DONE", ToJson(Len(Episodes))>>)
=============================================================================
