----------------------------- MODULE Trace_Edits -----------------------------
(* Recorded edits: made, combined, computed as a difference, sent and received.     *)
EXTENDS Edits, Json, IOUtils
VARIABLES ep, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
E == Eps[ep]

Build ==
    LET done == Finish(E.ops) IN
    /\ E.indels = done /\ E.len = Len(done) /\ E.empty = (done = <<>>)
    /\ E.applied = Apply(E.text, SortedOps(E.ops))
    /\ \A n \in 1..Len(E.mapped) : E.mapped[n] = MapOffset(done, n - 1)
    /\ \A n \in 1..Len(E.touched) : E.touched[n] = (IF Touches(E.ops, n - 1) THEN 1 ELSE 0)
UnionOf ==
    LET a == Finish(E.a) b == Finish(E.b) IN
    IF Overlaps(a, b) THEN ~E.ok /\ E.indels = a /\ E.kept = b
    ELSE IF ~E.ok THEN Touching(a, b) /\ E.indels = a /\ E.kept = b
    ELSE /\ E.indels = Union(a, b)
         /\ E.applied = Apply(E.text, Union(a, b))
Diff ==
    /\ Disjoint(E.indels)
    /\ \A n \in 1..Len(E.indels) : /\ 0 <= E.indels[n].s /\ E.indels[n].s <= E.indels[n].e /\ E.indels[n].e <= Len(E.left)
                                   /\ (E.indels[n].s < E.indels[n].e \/ E.indels[n].ins # <<>>)
    /\ Apply(E.left, E.indels) = E.right
    /\ E.applied = E.right
    /\ (E.left = E.right => E.indels = <<>>)
\* What the client is sent: it gets the new text out of it, with the line ends of the document.
Send ==
    /\ Legal(E.client, E.enc, E.edits)
    /\ LET new == Edited(E.client, E.enc, E.edits) IN
       /\ Normalize(new) = E.right
       /\ (E.client = (IF E.endings = "crlf" THEN Carriage(Normalize(E.client)) ELSE Normalize(E.client)) =>
              new = (IF E.endings = "crlf" THEN Carriage(E.right) ELSE E.right))
    /\ \A n \in 1..Len(E.edits) :
           E.edits[n].text = (IF E.endings = "crlf" THEN Carriage(Normalize(E.edits[n].text)) ELSE Normalize(E.edits[n].text))
    /\ \A n \in 1..(Len(E.edits) - 1) : ~Before(E.edits[n + 1].start, E.edits[n].end)
    /\ E.same
Receive == E.applied = Normalize(Edited(E.text, E.enc, E.edits))
\* Every place of a text has its position, and no other place has it; what is not in the text has none.
Places ==
    /\ \A n \in 1..Len(E.at) : /\ E.at[n].offset = n - 1
                               /\ [line |-> E.at[n].line, character |-> E.at[n].character] = Pos(E.text, E.enc, n - 1)
                               /\ E.at[n].back = n - 1
    /\ Len(E.at) = Len(E.text) + 1
    /\ E.beyond_is_error

Accept == ~E.panic /\
    CASE E.kind = "build" -> Build
      [] E.kind = "union" -> UnionOf
      [] E.kind = "diff" -> Diff
      [] E.kind = "send" -> Send
      [] E.kind = "receive" -> Receive
      [] E.kind = "places" -> Places

TInit == ep = 1 /\ bad = 0
TNext == /\ ep <= Len(Eps) /\ ep' = ep + 1
         /\ bad' = IF Accept THEN bad ELSE bad + 1
         /\ (IF Accept THEN TRUE ELSE PrintT(<<"BAD", ToJson([ep |-> ep, kind |-> E.kind])>>))
TSpec == TInit /\ [][TNext]_<<ep, bad>>
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
