---------------------------- MODULE Trace_Broken ----------------------------
(* A text whose brackets do not match is no program: it is refused as a whole, and *)
(* nothing is made of it.  The programs themselves are accepted.                   *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils
Episodes == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, bad
tvars == <<ep, bad>>
E == Episodes[ep]
Opens == [x \in {"(", "[", "[[", "{"} |-> CASE x = "(" -> ")" [] x = "[" -> "]" [] x = "[[" -> "]]" [] OTHER -> "}"]
Closes == {")", "]", "]]", "}"}
(* a reader of brackets: those that are open, or the one that is wrong *)
Reader(st, t) ==
    IF ~st.ok THEN st
    ELSE IF t = "\"" THEN [st EXCEPT !.ok = FALSE] (* a string without an end *)
    ELSE IF t \in DOMAIN Opens THEN [st EXCEPT !.open = Append(@, Opens[t])]
    ELSE IF t \in Closes THEN
        IF st.open # <<>> /\ Last(st.open) = t THEN [st EXCEPT !.open = Front(@)] ELSE [st EXCEPT !.ok = FALSE]
    ELSE st
Balanced(ts) == LET end == FoldLeft(Reader, [ok |-> TRUE, open |-> <<>>], ts) IN end.ok /\ end.open = <<>>
Message == "Failed to parse due to syntax errors."
Refused ==
    /\ E.res = "error" /\ E.error = Message /\ E.out = <<>>
    /\ ~E.read.ok /\ E.read.error = Message
    /\ E.read.tree = [k |-> "R_ROOT", s |-> "",
                      c |-> <<[k |-> "R_EXPRESSION_LIST", s |-> "",
                               c |-> <<[k |-> "R_BOGUS_EXPRESSION", s |-> E.text, c |-> <<>>]>>]>>]
Holds ==
    /\ E.res \in {"ok", "error"}
    /\ E.how = "none" => Balanced(E.tokens) /\ E.res = "ok"
    /\ ~Balanced(E.tokens) \/ E.res = "error" => Refused
    /\ (E.res = "ok") = E.read.ok
    /\ E.read.same
TInit == ep = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Episodes)
    /\ IF Holds THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT(<<"BAD", ToJson([ep |-> ep])>>)
    /\ ep' = ep + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Episodes) => PrintT(<<"DONE", ToJson(Len(Episodes))>>)
=============================================================================
