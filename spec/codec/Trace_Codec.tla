----------------------------- MODULE Trace_Codec -----------------------------
EXTENDS Codec, Json, IOUtils
VARIABLES ep, i, bad
KnownHere == IF "KNOWN" \in DOMAIN IOEnv THEN {IOEnv.KNOWN} \cap {"empty", "utf8", "headers"} ELSE {}
KnownAll == {"empty", "utf8", "headers"}
KnownSet == IF "KNOWN" \in DOMAIN IOEnv /\ IOEnv.KNOWN = "all" THEN KnownAll ELSE KnownHere
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<buf, want, ep, i, bad>>
E == Eps[ep].events[i]
Got == /\ E.op = "receive" /\ Receive(E.bytes)
Asked == /\ E.op = "ask"
         /\ LET d == Decode(buf, want) IN
            /\ E.kind = d.kind /\ E.err = d.err /\ E.msg = d.msg /\ E.left = Len(d.buf)
            /\ buf' = d.buf /\ want' = d.want
Encoded == E.op = "encode" /\ E.ok /\ E.bytes = Encode(E.body) /\ UNCHANGED <<buf, want>>
Step == Got \/ Asked \/ Encoded
Reset == buf' = <<>> /\ want' = -1
TInit == CInit /\ ep = 1 /\ i = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Eps)
    /\ IF i > Len(Eps[ep].events)
       THEN Reset /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad
       ELSE IF ENABLED Step
       THEN Step /\ i' = i + 1 /\ UNCHANGED <<ep, bad>>
       ELSE /\ PrintT(<<"BAD", ToJson([ep |-> ep, event |-> i,
                  expected |-> IF E.op = "ask" THEN Decode(buf, want) ELSE [kind |-> E.op]])>>)
            /\ Reset /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
