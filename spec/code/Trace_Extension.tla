---------------------------- MODULE Trace_Extension ----------------------------
(* Recorded conversations of an editor with the extension; PART says which aspect is  *)
(* looked at.                                                                         *)
EXTENDS Extension, Json, IOUtils
VARIABLES ep, step, s
Eps == ndJsonDeserialize(IOEnv.TRACE)
Looks(part) == IOEnv.PART = part
E == Eps[ep]

Files(xs) == {[path |-> f.path, lines |-> f.lines, crlf |-> f.crlf, final |-> f.final] : f \in xs}
\* A file of one line has no line ends that could be told apart, unless it ends in one.
Plain(f) == [path |-> f.path, lines |-> f.lines, crlf |-> f.crlf /\ (Len(f.lines) > 1 \/ f.final), final |-> f.final]
OutOk(t, o, r) ==
    /\ r.odd = t.out.odd
    /\ (Looks("binary") \/ Looks("lifecycle") \/ Looks("folders") =>
            /\ r.settled = t.out.settled /\ r.events = t.out.events /\ r.pending = Pending(t)
            /\ r.client = t.client /\ r.binary = t.binary /\ r.path = t.path
            /\ r.clients = t.out.clients)
    /\ (Looks("configuration") /\ o.op = "configuration" => r.got = t.out.got)
    /\ (Looks("sync") /\ o.op \in {"sync", "active"} => r.editors = t.options)
    /\ (Looks("views") /\ o.op \in {"view", "typed", "active"} =>
            /\ r.requests = t.out.requests /\ Set(r.refreshed) = t.out.refreshed /\ Len(r.refreshed) = Cardinality(t.out.refreshed)
            /\ r.shown = t.out.shown /\ r.settled = t.out.settled)
    /\ (Looks("commands") /\ o.op = "command" =>
            /\ r.settled = t.out.settled /\ r.asks = t.out.asks /\ Set(r.saved) = Set(t.out.saved) /\ Len(r.saved) = Len(t.out.saved)
            /\ r.ran = t.out.ran /\ r.logs = t.out.logs /\ Set(r.wrote) = t.out.wrote
            /\ Set(r.files) = t.files /\ Set(r.settings) = t.settings)

State0(e) == LET w == World(e.setup) IN [w EXCEPT !.files = {Plain(f) : f \in @}]
TInit == ep = 1 /\ step = 1 /\ s = State0(Eps[1])
NextEp == ep' = ep + 1 /\ step' = 1 /\ s' = IF ep < Len(Eps) THEN State0(Eps[ep + 1]) ELSE s
TNext ==
    /\ ep <= Len(Eps)
    /\ IF step > Len(E.events) THEN NextEp
       ELSE LET e == E.events[step]
                t == Step(s, e.op)
            IN IF OutOk(t, e.op, e.out) THEN step' = step + 1 /\ s' = t /\ UNCHANGED ep
               ELSE PrintT(<<"BAD", ToJson([ep |-> ep, step |-> step, want |-> [Seen(t) EXCEPT !.odd = t.out.odd]])>>) /\ NextEp
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
TSpec == TInit /\ [][TNext]_<<ep, step, s>>
=============================================================================
