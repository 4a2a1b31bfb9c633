------------------------------- MODULE MC_Zed -------------------------------
EXTENDS Zed
CONSTANTS Versions, Platforms
Other == [top |-> "notes.txt", rest |-> ""]
Stale == [top |-> "old", rest |-> "x"]
Releases == [ok : {TRUE}, version : Versions,
             assets : {{}, {[name |-> Asset(platform), url |-> "u"], [name |-> "air-x-unknown.zip", url |-> "v"]}}]
            \cup {[ok |-> FALSE, version |-> "", assets |-> {}]}
Next ==
    \/ Ask
    \/ \E path \in {<<>>, <<"mine">>}, args \in {<<>>, <<<<"x">>>>} :
           Configure([path |-> path, args |-> args, options |-> "null", config |-> "null"])
    \/ \E w \in {<<>>, <<"/bin/air">>} : Install(w)
    \/ \E r \in Releases : Publish(r)
    \/ \E w \in {"ok", "fail", "partial", "empty"} : Forecast(w)
    \/ Touch(dirs \cup {"old"}, files \cup {Other, Stale})
    \/ \E v \in Versions : Touch(dirs \ {Dir(v)}, {f \in files : f.top # Dir(v)})
    \/ Restart
One == {[os |-> "linux", arch |-> "x86_64"]}
Two == {[os |-> "linux", arch |-> "x86_64"], [os |-> "windows", arch |-> "aarch64"]}
Init == \E p \in Platforms : InitOn(p)
Spec == Init /\ [][Next]_zvars

\* Some air is always found or an error is reported, by exactly one of the ways.
Total == Cardinality({n \in 1..8 : CASE n = 1 -> settings.path # <<>>
                                     [] n = 2 -> settings.path = <<>> /\ found # <<>>
                                     [] n = 3 -> Elsewhere /\ Cached
                                     [] n = 4 -> Remote /\ ~release.ok
                                     [] n = 5 -> Remote /\ release.ok /\ Mine = {}
                                     [] n = 6 -> Remote /\ release.ok /\ Mine # {} /\ Bin \in files
                                     [] n = 7 -> Fetch /\ weather \in {"ok", "empty"}
                                     [] n = 8 -> Fetch /\ weather \in {"partial", "fail"}}) = 1
\* The network is only asked when there is no other air; nothing is downloaded that is there.
Network == [][Ask => (done'.calls # <<>> => Remote) /\ (Len(done'.calls) = 4 => Bin \notin files)]_zvars
\* A download that worked is what is started, is there, and no other directory is.
Fetched == [][Ask /\ Len(done'.calls) = 4 /\ done'.kind = "command" =>
                /\ done'.command = Text(Bin) /\ dirs' = {Dir(release.version)}
                /\ (weather = "ok" => Bin \in files')
                /\ \A f \in files : f.rest = "" => f \in files']_zvars
\* Failing costs nothing that was there.
Failing == [][Ask /\ done'.kind = "error" => files \subseteq files' /\ dirs \subseteq dirs' /\ cache' = cache]_zvars
\* Directories on disk are those with files in them.
Consistent == \A f \in files : f.rest # "" => f.top \in dirs
=============================================================================
