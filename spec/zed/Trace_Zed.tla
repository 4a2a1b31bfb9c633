------------------------------ MODULE Trace_Zed ------------------------------
EXTENDS Zed, Json, IOUtils
VARIABLES ep, i, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<platform, settings, found, release, weather, dirs, files, cache, done, ep, i, bad>>
E == Eps[ep].events[i]
Range(s) == {s[k] : k \in 1..Len(s)}
Step ==
    CASE E.op = "platform" -> platform' = [os |-> E.os, arch |-> E.arch]
              /\ UNCHANGED <<settings, found, release, weather, dirs, files, cache, done>>
      [] E.op = "settings" -> Configure([path |-> E.path, args |-> E.args, options |-> E.options, config |-> E.config])
      [] E.op = "which" -> Install(E.found)
      [] E.op = "release" -> Publish([ok |-> E.ok, version |-> E.version, assets |-> Range(E.assets)])
      [] E.op = "weather" -> Forecast(E.download)
      [] E.op = "restart" -> Restart
      [] E.op = "files" -> Touch(Range(E.disk.dirs), Range(E.disk.files))
      [] E.op = "options" -> E.options = settings.options /\ E.config = settings.config /\ UNCHANGED zvars
      [] E.op = "ask" -> /\ Ask
                         /\ E.kind = done'.kind /\ E.calls = done'.calls
                         /\ (E.kind = "command" => E.command = done'.command /\ E.args = done'.args /\ E.env = 0)
                         /\ (E.kind = "error" => E.command # "")      \* with a message
                         /\ Range(E.disk.dirs) = dirs' /\ Range(E.disk.files) = files'
Fresh == InitOn([os |-> "", arch |-> ""])
Again == /\ platform' = [os |-> "", arch |-> ""] /\ settings' = NoSettings /\ found' = <<>>
         /\ release' = [ok |-> FALSE, version |-> "", assets |-> {}] /\ weather' = "ok"
         /\ dirs' = {} /\ files' = {} /\ cache' = <<>> /\ done' = Nothing
TInit == Fresh /\ ep = 1 /\ i = 1 /\ bad = 0
TNext ==
    /\ ep <= Len(Eps)
    /\ IF i > Len(Eps[ep].events)
       THEN Again /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad
       ELSE IF ENABLED Step
       THEN Step /\ i' = i + 1 /\ UNCHANGED <<ep, bad>>
       ELSE /\ PrintT(<<"BAD", ToJson([ep |-> ep, event |-> i])>>)
            /\ Again /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
