------------------------- MODULE Trace_SettingValues -------------------------
(* Each episode configures one value after the other, through one notation; the       *)
(* driver logs what was accepted and what the value then is, in all its forms.        *)
EXTENDS SettingValues, Json, IOUtils
VARIABLES ep, i, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<value, ep, i, bad>>
E == Eps[ep].events[i]
\* The empty sequence stands for "rejected".
Number == /\ E.op = "width"
          /\ Configure(E.kind, E.n)
          /\ E.accepted = Valid(E.kind, E.n)
          /\ E.accepted => E.forms = <<E.n>>            \* every accessor agrees
          /\ ~E.accepted => E.named                     \* the message names the limit (and the value)
Range == /\ E.op = "range" /\ UNCHANGED value           \* all of lo..hi, as accepted intervals
         /\ E.accepted = (LET lo == IF E.lo > Min(E.kind) THEN E.lo ELSE Min(E.kind)
                              hi == IF E.hi < Max(E.kind) THEN E.hi ELSE Max(E.kind)
                          IN IF lo > hi THEN <<>> ELSE <<<<lo, hi>>>>)
         /\ E.wrong = <<>>
Named == /\ E.op = "name"
         /\ Configure(E.kind, E.name)
         /\ E.accepted = (E.name \in Names(E.kind))
         /\ E.accepted => E.shown = Shown(E.name) /\ E.back = E.name
Dflt == /\ E.op = "default" /\ UNCHANGED value /\ E.value = (IF E.kind \in WidthKinds THEN Default(E.kind) ELSE DefaultName(E.kind))
Labels == /\ E.op = "shown" /\ UNCHANGED value /\ E.ret = <<Shown("lf"), Shown("crlf")>>
Step == Labels \/ Number \/ Range \/ Named \/ Dflt
Reset == value' = [k \in WidthKinds |-> Default(k)] @@ [o \in Options |-> DefaultName(o)]
TInit == SInit /\ ep = 1 /\ i = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Eps)
    /\ IF i > Len(Eps[ep].events)
       THEN Reset /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad
       ELSE IF ENABLED Step
       THEN Step /\ i' = i + 1 /\ UNCHANGED <<ep, bad>>
       ELSE /\ PrintT(<<"BAD", ToJson([ep |-> ep, event |-> i])>>)
            /\ Reset /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
