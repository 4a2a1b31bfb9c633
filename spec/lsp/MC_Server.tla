------------------------------ MODULE MC_Server ------------------------------
(* Folders, configurations and documents, with a disk that changes.                 *)
EXTENDS Server, Json, IOUtils
CONSTANTS MaxSteps, Deep
VARIABLES s, disk,
          behind,   \* <<folder, directory>>: a change in the directory, of which the server was not told, matters to the folder
          steps, hist
mvars == <<s, disk, behind, steps, hist>>
Keeps == "EMIT" \in DOMAIN IOEnv

P == <<"p">>
Q == <<"q r">>
PS == <<"p", "s">>
Dirs == {<<>>, P, PS} \union (IF Deep THEN {Q} ELSE {})
Folders == {P, PS} \union (IF Deep THEN {Q} ELSE {})
Tomls == <<[broken |-> FALSE], [broken |-> FALSE], [broken |-> TRUE]>>
Docs == <<[scheme |-> "file", path |-> <<"p", "x.R">>], [scheme |-> "file", path |-> <<"p", "s", "y.R">>],
          [scheme |-> "file", path |-> <<"q r", "z.R">>], [scheme |-> "untitled", path |-> <<>>]>>

Did(e) == steps' = steps + 1 /\ hist' = IF Keeps THEN Append(hist, e) ELSE <<>>
Init == s = Fresh0 /\ disk = [d \in Dirs |-> <<0, 0>>] /\ behind = {} /\ steps = 0 /\ hist = <<>>
Without(dir) == {x \in behind : x[1] # dir}
Change(d, n, t) ==
    /\ disk[d][n] # t
    /\ disk' = [disk EXCEPT ![d][n] = t]
    /\ behind' = behind \union {<<f.dir, d>> : f \in {f \in s.folders : IsPrefixOf(d, f.dir)}}
    /\ Did([op |-> "disk", dir |-> d, hidden |-> (n = 2), toml |-> t])
    /\ UNCHANGED s
\* Opening reads the disk; what can't be read changes nothing, neither what is known of it.
Open(d) ==
    LET t == Discovered(disk, d) IN
    /\ s' = Opened(s, disk, Tomls, d)
    /\ behind' = IF t # 0 /\ Tomls[t].broken THEN behind ELSE Without(d)
    /\ Did([op |-> "open", dir |-> d]) /\ UNCHANGED disk
Close(d) ==
    /\ \E f \in s.folders : f.dir = d
    /\ s' = Closed(s, d) /\ behind' = Without(d)
    /\ Did([op |-> "close", dir |-> d]) /\ UNCHANGED disk
Tell(d, name) ==
    /\ s' = Told(s, disk, Tomls, Append(d, name))
    /\ behind' = {x \in behind : ~IsPrefixOf(x[1], d)}
    /\ Did([op |-> "told", path |-> Append(d, name)]) /\ UNCHANGED disk
Next ==
    /\ steps < MaxSteps
    /\ \/ \E d \in Dirs, t \in 0..3 : Change(d, 1, t)
       \/ \E t \in {0, 1} : Change(P, 2, t)
       \/ \E d \in Folders : Open(d) \/ Close(d)
       \/ \E d \in {x[2] : x \in behind} : Tell(d, "air.toml") \/ (Deep /\ ~Keeps /\ Tell(d, ".air.toml"))
Spec == Init /\ [][Next]_mvars
View == <<s, disk, behind, IF Keeps THEN hist ELSE <<steps>>>>

\* A broken configuration is never one's own.
InvNeverBroken == \A f \in s.folders : f.toml = 0 \/ ~Tomls[f.toml].broken
InvOnce == \A f, g \in s.folders : f.dir = g.dir => f = g
\* A folder with no change behind the server's back has what is on disk now.
InvUpToDate == \A f \in s.folders :
    (~\E x \in behind : x[1] = f.dir) =>
        LET t == Discovered(disk, f.dir) IN f.toml = (IF t # 0 /\ Tomls[t].broken THEN 0 ELSE t)
\* The configuration of a document is that of a folder it is in, and of no folder above it.
InvClosest == \A n \in 1..Len(Docs) : LET u == Docs[n] c == Configured(s, u) IN
    (u.scheme = "file" /\ c # 0) => \E f \in s.folders : /\ IsPrefixOf(f.dir, u.path) /\ f.toml = c
                                                       /\ \A g \in s.folders : IsPrefixOf(g.dir, u.path) => IsPrefixOf(g.dir, f.dir)
\* A change in one folder is nothing to documents in others.
InvApart == \A d \in Folders, n \in 1..Len(Docs) : LET u == Docs[n] IN
    (u.scheme = "file" /\ ~IsPrefixOf(d, u.path)) =>
        /\ Configured(Told(s, disk, Tomls, Append(d, "air.toml")), u) \in {Configured(s, u), Configured(Told(s, disk, Tomls, Append(SubSeq(u.path, 1, Len(u.path) - 1), "air.toml")), u)}
        /\ Configured(Closed(s, d), u) = Configured(s, u)
        /\ Configured(Opened(s, disk, Tomls, d), u) = Configured(s, u)
\* Opening and closing again is nothing, and telling twice is telling once.
InvAgain == \A d \in Folders : LET p == Append(d, "air.toml") t == Told(s, disk, Tomls, p) IN
    /\ Told(t, disk, Tomls, p) = t
    /\ (\A f \in s.folders : f.dir # d) => Closed(Opened(s, disk, Tomls, d), d) = s
Emit == (Keeps /\ steps = MaxSteps) =>
    PrintT(<<"CASE", ToJson([hist |-> hist, configured |-> [n \in 1..Len(Docs) |-> Configured(s, Docs[n])]])>>)
\* Of the longest, those that end with news for one folder of several.
EmitTold == (Keeps /\ steps = MaxSteps /\ hist[steps].op = "told" /\ Cardinality(s.folders) > 1
             /\ \E i \in 1..(steps - 2) : hist[i].op = "disk") =>
    PrintT(<<"CASE", ToJson([hist |-> hist, configured |-> [n \in 1..Len(Docs) |-> Configured(s, Docs[n])]])>>)
=============================================================================
