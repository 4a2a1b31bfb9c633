----------------------------- MODULE Trace_Ends -----------------------------
(* Every line ends as it is configured, the last one too, whatever the line ends *)
(* of the text that was formatted; nothing else about the lines depends on that.  *)
EXTENDS RFormat, Json, IOUtils
Episodes == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, bad
tvars == <<ep, bad>>
E == Episodes[ep]
Chosen(setting, ends) ==
    CASE setting = "auto" -> IF ends = <<>> THEN "lf" ELSE ends[1]
      [] setting = "native" -> "lf"
      [] OTHER -> setting
(* The lines of the output as written: with its carriage return if it ends in CRLF. *)
Closed(lines, how) ==
    Each(Len(lines), LAMBDA i : IF how = "crlf" /\ i < Len(lines) THEN lines[i] \o "\r" ELSE lines[i])
Holds ==
    /\ E.res = "ok"
    /\ E.out = Closed(Format(E.p, E.o), Chosen(E.ending, E.ends))
TInit == ep = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Episodes)
    /\ IF Holds THEN bad' = bad
       ELSE bad' = bad + 1 /\ PrintT(<<"BAD", ToJson([ep |-> ep, want |-> Closed(Format(E.p, E.o), Chosen(E.ending, E.ends))])>>)
    /\ ep' = ep + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Episodes) => PrintT(<<"DONE", ToJson(Len(Episodes))>>)
=============================================================================
