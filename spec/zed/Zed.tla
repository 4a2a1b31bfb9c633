--------------------------------- MODULE Zed ---------------------------------
(* Which air the Zed extension starts: the one the user configured, the one on the    *)
(* PATH, the one it downloaded before, or the latest release.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
    platform,   \* [os, arch]
    settings,   \* what the user configured: [path, args, options, config], `path` and `args` are
                \* sequences of at most one value
    found,      \* what is on the PATH: at most one
    release,    \* the latest release: [ok, version, assets: set of [name, url]]
    weather,    \* what downloads do: "ok", "fail", "partial" (fails half way), "empty" (has no binary)
    dirs,       \* directories in the extension's directory
    files,      \* files in it and below: set of [top, rest]
    cache,      \* at most one [dir, file]: the path of the binary that was downloaded last in this session
    done        \* what the last question came to: [kind, command, args, calls]
zvars == <<platform, settings, found, release, weather, dirs, files, cache, done>>

-----------------------------------------------------------------------------
(* Names.                                                                            *)
Target(p) == "air-" \o p.arch \o "-" \o (CASE p.os = "mac" -> "apple-darwin"
                                           [] p.os = "linux" -> "unknown-linux-gnu"
                                           [] p.os = "windows" -> "pc-windows-msvc")
Asset(p) == Target(p) \o (IF p.os = "windows" THEN ".zip" ELSE ".tar.gz")
Kind(p) == IF p.os = "windows" THEN "Zip" ELSE "GzipTar"
Inside(p) == IF p.os = "windows" THEN "air.exe" ELSE Target(p) \o "/air"
Dir(v) == "air-" \o v
Binary(p, v) == [top |-> Dir(v), rest |-> Inside(p)]
Text(b) == b.top \o "/" \o b.rest

-----------------------------------------------------------------------------
Nothing == [kind |-> "", command |-> "", args |-> <<>>, calls |-> <<>>]
NoSettings == [path |-> <<>>, args |-> <<>>, options |-> "null", config |-> "null"]
Args == IF settings.args = <<>> THEN <<"language-server">> ELSE settings.args[1]
Checking == <<"status", "air", "checking">>
Downloading == <<"status", "air", "downloading">>
Latest == <<"latest", "posit-dev/air", "assets", "final">>
Download(url) == <<"download", url, Dir(release.version), Kind(platform)>>

Start(command, calls) == done' = [kind |-> "command", command |-> command, args |-> Args, calls |-> calls]
Fail(calls) == done' = [kind |-> "error", command |-> "", args |-> <<>>, calls |-> calls]
World == <<platform, settings, found, release, weather>>

AskConfigured ==
    /\ settings.path # <<>>
    /\ Start(settings.path[1], <<>>) /\ UNCHANGED <<World, dirs, files, cache>>
AskOnPath ==
    /\ settings.path = <<>> /\ found # <<>>
    /\ Start(found[1], <<>>) /\ UNCHANGED <<World, dirs, files, cache>>
Elsewhere == settings.path = <<>> /\ found = <<>>
Cached == IF cache = <<>> THEN FALSE ELSE cache[1] \in files
AskCached ==
    /\ Elsewhere /\ Cached
    /\ Start(Text(cache[1]), <<>>) /\ UNCHANGED <<World, dirs, files, cache>>
Remote == Elsewhere /\ ~Cached
AskNoRelease ==
    /\ Remote /\ ~release.ok
    /\ Fail(<<Checking, Latest>>) /\ UNCHANGED <<World, dirs, files, cache>>
Mine == {a \in release.assets : a.name = Asset(platform)}
AskNoAsset ==
    /\ Remote /\ release.ok /\ Mine = {}
    /\ Fail(<<Checking, Latest>>) /\ UNCHANGED <<World, dirs, files, cache>>
Bin == Binary(platform, release.version)
AskThere ==
    /\ Remote /\ release.ok /\ Mine # {} /\ Bin \in files
    /\ Start(Text(Bin), <<Checking, Latest>>)
    /\ cache' = <<Bin>> /\ UNCHANGED <<World, dirs, files>>
\* `Readme`: what is in a release besides the binary.
Readme == [top |-> Dir(release.version), rest |-> "README"]
Arrives == CASE weather = "ok" -> {Bin} [] weather \in {"empty", "partial"} -> {Readme} [] OTHER -> {}
Fetch == Remote /\ release.ok /\ Mine # {} /\ Bin \notin files
AskDownload ==
    /\ Fetch /\ weather \in {"ok", "empty"}
    /\ \E a \in Mine : Start(Text(Bin), <<Checking, Latest, Downloading, Download(a.url)>>)
    \* Every other directory is outdated.
    /\ dirs' = {Dir(release.version)}
    /\ files' = {f \in files \cup Arrives : f.rest = "" \/ f.top = Dir(release.version)}
    /\ cache' = <<Bin>> /\ UNCHANGED World
AskFails ==
    /\ Fetch /\ weather \in {"partial", "fail"}
    /\ \E a \in Mine : Fail(<<Checking, Latest, Downloading, Download(a.url)>>)
    /\ dirs' = IF weather = "partial" THEN dirs \cup {Dir(release.version)} ELSE dirs
    /\ files' = files \cup Arrives
    /\ UNCHANGED <<World, cache>>
Ask == AskConfigured \/ AskOnPath \/ AskCached \/ AskNoRelease \/ AskNoAsset \/ AskThere \/ AskDownload \/ AskFails

Configure(s) == settings' = s /\ UNCHANGED <<platform, found, release, weather, dirs, files, cache, done>>
Install(w) == found' = w /\ UNCHANGED <<platform, settings, release, weather, dirs, files, cache, done>>
Publish(r) == release' = r /\ UNCHANGED <<platform, settings, found, weather, dirs, files, cache, done>>
Forecast(w) == weather' = w /\ UNCHANGED <<platform, settings, found, release, dirs, files, cache, done>>
Touch(ds, fs) == dirs' = ds /\ files' = fs /\ UNCHANGED <<World, cache, done>>
Restart == cache' = <<>> /\ UNCHANGED <<World, dirs, files, done>>

InitOn(p) ==
    /\ platform = p /\ settings = NoSettings /\ found = <<>>
    /\ release = [ok |-> FALSE, version |-> "", assets |-> {}] /\ weather = "ok"
    /\ dirs = {} /\ files = {} /\ cache = <<>> /\ done = Nothing
=============================================================================
