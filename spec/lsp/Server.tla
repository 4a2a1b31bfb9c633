------------------------------- MODULE Server -------------------------------
(* The language server: which documents it has, which folders are open in it and     *)
(* with which configuration, and what it does with each message. Messages are dealt  *)
(* with one after the other, in the order in which they come.                        *)
(*                                                                                   *)
(* A directory is a sequence of names. Of each directory, `disk` has the number of   *)
(* the configuration in `air.toml` and that of the one in `.air.toml`, 0 for none.   *)
(* A configuration is a record; a broken one can't be read.                          *)
(*                                                                                   *)
(* The server is a record of                                                         *)
(*   folders  the open ones, [dir, toml]: the configuration read when it was opened,  *)
(*            or when a change was last heard of; 0 if there is none                  *)
(*   docs     uri -> [text, ends]                                                     *)
(*   syncing  whether the client wants to know of configurations                      *)
EXTENDS Edits

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Ancestors(dir) == {SubSeq(dir, 1, n) : n \in 0..Len(dir)}
InDir(disk, dir) ==
    IF dir \notin DOMAIN disk THEN 0 ELSE IF disk[dir][1] # 0 THEN disk[dir][1] ELSE disk[dir][2]
\* The configuration closest to a directory, in it or above.
Discovered(disk, dir) ==
    LET with == {d \in Ancestors(dir) : InDir(disk, d) # 0} IN
    IF with = {} THEN 0 ELSE InDir(disk, CHOOSE d \in with : \A e \in with : Len(e) <= Len(d))

Fresh0 == [folders |-> {}, docs |-> <<>>, syncing |-> FALSE]

-----------------------------------------------------------------------------
(* Folders. *)
Opened(s, disk, tomls, dir) ==
    LET t == Discovered(disk, dir) IN
    IF t # 0 /\ tomls[t].broken THEN s
    ELSE [s EXCEPT !.folders = {f \in @ : f.dir # dir} \union {[dir |-> dir, toml |-> t]}]
Closed(s, dir) == [s EXCEPT !.folders = {f \in @ : f.dir # dir}]
RECURSIVE OpenedAll(_, _, _, _)
OpenedAll(s, disk, tomls, dirs) ==
    IF dirs = <<>> THEN s ELSE OpenedAll(Opened(s, disk, tomls, Head(dirs)), disk, tomls, Tail(dirs))
RECURSIVE ClosedAll(_, _)
ClosedAll(s, dirs) == IF dirs = <<>> THEN s ELSE ClosedAll(Closed(s, Head(dirs)), Tail(dirs))
Matched(s, path) == {f \in s.folders : IsPrefixOf(f.dir, path)}
IsToml(path) == path # <<>> /\ path[Len(path)] \in {"air.toml", ".air.toml"}
\* A file is said to have changed: folders that contain it are read again. One that can't be has no configuration.
Reread(f, disk, tomls) ==
    LET t == Discovered(disk, f.dir) IN [f EXCEPT !.toml = IF t # 0 /\ tomls[t].broken THEN 0 ELSE t]
Told(s, disk, tomls, path) ==
    IF ~IsToml(path) THEN s
    ELSE [s EXCEPT !.folders = {IF f \in Matched(s, path) THEN Reread(f, disk, tomls) ELSE f : f \in @}]
RECURSIVE ToldAll(_, _, _, _)
ToldAll(s, disk, tomls, paths) ==
    IF paths = <<>> THEN s ELSE ToldAll(Told(s, disk, tomls, Head(paths)), disk, tomls, Tail(paths))

\* The configuration for a document; 0: none, the editor's settings apply.
Configured(s, u) ==
    IF u.scheme = "file"
    THEN LET fs == {f \in s.folders : IsPrefixOf(f.dir, u.path)} IN
         IF fs = {} THEN 0 ELSE (CHOOSE f \in fs : \A g \in fs : Len(g.dir) <= Len(f.dir)).toml
    ELSE IF u.scheme = "untitled" /\ Cardinality(s.folders) = 1 THEN (CHOOSE f \in s.folders : TRUE).toml
    ELSE 0

-----------------------------------------------------------------------------
(* What the client is told about configurations: a set of documents, each with its own. *)
Backward(s, uris, table, tomls) ==
    {[url |-> x, toml |-> tomls[Configured(s, table[x])].format] : x \in {x \in uris : Configured(s, table[x]) # 0}}
Known(s) == DOMAIN s.docs

-----------------------------------------------------------------------------
(* Formatting. `outs` says what the formatter makes of the text, by configuration;   *)
(* "request" stands for the defaults with the indentation of the request.            *)
Excluded(s, u, tomls) ==
    /\ u.scheme = "file"
    /\ LET t == Configured(s, u) IN
       \/ u.default /\ (t = 0 \/ tomls[t].defaults)
       \/ u.skipped /\ t # 0 /\ tomls[t].skips
Body(u, t) == IF u.scheme = "vscode-notebook-cell" /\ t # <<>> /\ t[Len(t)] = LF THEN SubSeq(t, 1, Len(t) - 1) ELSE t
Out(outs, key) == (CHOOSE o \in {outs[n] : n \in 1..Len(outs)} : o.key = key).text
\* The text that a document is to have after it was formatted, line ends aside.
Formatted(s, uri, u, tomls, outs, broken) ==
    LET text == Normalize(s.docs[uri].text)
        t == Configured(s, u)
        new == Out(outs, t)
    IN IF Excluded(s, u, tomls) \/ broken THEN text
       ELSE IF new = text THEN text
       ELSE Body(u, new)
Uniform(t) == IF Endings(t) = "crlf" THEN t = Carriage(Normalize(t)) ELSE t = Normalize(t)
\* The ends of its lines are as they were: they are the editor's business, not the configuration's. (Of a document in
\* which both kinds came together, or which changed from one to the other, nothing is said.)
EndsWell(old, new) ==
    Uniform(old.text) /\ old.ends = Endings(old.text) =>
        new = (IF old.ends = "crlf" THEN Carriage(Normalize(new)) ELSE Normalize(new))
=============================================================================
