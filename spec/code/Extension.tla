------------------------------- MODULE Extension -------------------------------
(* The VS Code extension: what it does when the user, the editor or the server does  *)
(* something. One state `s` holds the editor's world and the extension's own state;   *)
(* `s.out` is what the last step let the editor see. Values are texts; "none" is none.*)
EXTENDS Integers, Sequences, FiniteSets, TLC

Set(seq) == {seq[n] : n \in 1..Len(seq)}
Within(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
RECURSIVE FsPath(_)
FsPath(p) == IF p = <<>> THEN "~" ELSE FsPath(SubSeq(p, 1, Len(p) - 1)) \o "/" \o p[Len(p)]

-----------------------------------------------------------------------------
(* Settings: of the user, of the workspace, of each folder. *)
Defaults == [k \in {"air.executableStrategy", "air.addExecutableToTerminalPath", "air.executablePath", "air.syncFileSettingsWithClient",
                    "editor.tabSize", "editor.insertSpaces", "editor.indentSize"} |->
    CASE k = "air.executableStrategy" -> "bundled" [] k = "air.executablePath" -> "none" [] k = "editor.tabSize" -> "4"
      [] k = "editor.indentSize" -> "tabSize" [] OTHER -> "true"]
Value(s, layer, folder, key) ==
    LET found == {x \in s.settings : x.layer = layer /\ x.folder = folder /\ x.key = key} IN
    IF found = {} THEN "none" ELSE (CHOOSE x \in found : TRUE).value
\* The innermost folder that a file is in; Nowhere for what isn't in any.
Nowhere == <<"nowhere">>
FolderOf(s, path) ==
    LET in == {f \in Set(s.folders) : Within(f.path, path)} IN
    IF in = {} THEN Nowhere ELSE (CHOOSE f \in in : \A g \in in : Len(g.path) <= Len(f.path)).path
\* What a language has of its own comes before everything else.
Get(s, folder, language, key) ==
    LET l == "[" \o language \o "]" \o key
        all == <<Value(s, "folder", folder, l), Value(s, "workspace", <<>>, l), Value(s, "user", <<>>, l),
                 Value(s, "folder", folder, key), Value(s, "workspace", <<>>, key), Value(s, "user", <<>>, key),
                 IF key \in DOMAIN Defaults THEN Defaults[key] ELSE "none">>
        some == {n \in 1..7 : all[n] # "none" /\ (language # "" \/ n > 3)}
    IN IF some = {} THEN "none" ELSE all[CHOOSE n \in some : \A m \in some : n <= m]
Put(settings, x) ==
    {y \in settings : <<y.layer, y.folder, y.key>> # <<x.layer, x.folder, x.key>>}
    \union (IF x.value = "none" THEN {} ELSE {[layer |-> x.layer, folder |-> x.folder, key |-> x.key, value |-> x.value]})
RECURSIVE PutAll(_, _)
PutAll(settings, xs) == IF xs = <<>> THEN settings ELSE PutAll(Put(settings, Head(xs)), Tail(xs))

-----------------------------------------------------------------------------
(* Which folder is the root, and which binary is run. *)
RECURSIVE PathLen(_)
PathLen(p) == IF p = <<>> THEN 0 ELSE 1 + Len(p[1]) + PathLen(Tail(p))
Here == <<"here">>
Root(s) ==
    LET there == {n \in 1..Len(s.folders) : s.folders[n].there}
        Size(n) == PathLen(s.folders[n].path)
    IN IF s.folders = <<>> THEN Here
       ELSE IF Len(s.folders) = 1 \/ there = {} THEN s.folders[1].path
       ELSE s.folders[CHOOSE n \in there : \A m \in there : Size(n) < Size(m) \/ (Size(n) = Size(m) /\ n <= m)].path
Bundled == "~/bundled/bin/air"
OfBundled(s) == IF Bundled \in s.binaries THEN Bundled ELSE ""
OfPATH(s) ==
    LET found == {n \in 1..Len(s.PATH) : s.PATH[n] \o "/air" \in s.binaries} IN
    IF found = {} THEN "" ELSE s.PATH[CHOOSE n \in found : \A m \in found : n <= m] \o "/air"
Resolved(s) ==
    LET strategy == Get(s, FolderOf(s, Root(s)), "", "air.executableStrategy")
        given == Get(s, FolderOf(s, Root(s)), "", "air.executablePath")
    IN CASE ~s.trusted -> OfBundled(s)
         [] s.trusted /\ strategy = "bundled" -> IF OfBundled(s) # "" THEN OfBundled(s) ELSE OfPATH(s)
         [] s.trusted /\ strategy = "environment" -> IF OfPATH(s) # "" THEN OfPATH(s) ELSE OfBundled(s)
         [] s.trusted /\ strategy = "path" -> IF given \in s.binaries THEN given ELSE ""
         [] OTHER -> ""
Dir(b) == CASE b = Bundled -> "~/bundled/bin" [] b = "~/e1/air" -> "~/e1" [] b = "~/e2/air" -> "~/e2" [] b = "~/p/air" -> "~/p"
            [] b = "~/p q/air-dev" -> "~/p q"

-----------------------------------------------------------------------------
(* The server's life. One thing at a time: `cur` is what is under way, `q` what waits. *)
Idle == [kind |-> "none", phase |-> "none", id |-> 0, binary |-> "", folder |-> <<>>]
Hidden == 0   \* who asked isn't told
Answer(s, id, ok) == IF id = Hidden THEN s ELSE [s EXCEPT !.out.settled = Append(@, [id |-> id, ok |-> ok])]
Done(s, o, ok) == Answer([s EXCEPT !.cur = Idle], o.id, ok)
OnPATH(s) == IF Get(s, FolderOf(s, s.folder), "", "air.addExecutableToTerminalPath") = "true" THEN Dir(s.binary) \o ":" ELSE ""
Launch(s, o) ==
    LET b == Resolved(s) IN
    IF s.st = "started" THEN Done(s, o, TRUE)
    ELSE IF b = "" THEN Done(s, o, FALSE)
    ELSE [s EXCEPT !.n = @ + 1,
                   !.cur = [kind |-> o.kind, phase |-> "start", id |-> o.id, binary |-> b, folder |-> Root(s)],
                   !.out.clients = Append(@, [command |-> b, args |-> <<"language-server">>, n |-> s.n + 1,
                                              logLevel |-> Value(s, "user", <<>>, "air.logLevel"),
                                              dependencyLogLevels |-> Value(s, "user", <<>>, "air.dependencyLogLevels")])]
Ending(s, o) == [s EXCEPT !.cur = [kind |-> o.kind, phase |-> "stop", id |-> o.id, binary |-> "", folder |-> <<>>]]
Begin(s, o) ==
    CASE o.kind = "start" -> Launch(s, o)
      [] o.kind = "stop" -> IF s.st = "stopped" THEN Done(s, o, TRUE) ELSE Ending(s, o)
      [] o.kind = "restart" -> IF s.st = "started" THEN Ending(s, o) ELSE Launch(s, o)
RECURSIVE Drain(_)
Drain(s) == IF s.cur.phase # "none" \/ s.q = <<>> THEN s ELSE Drain(Begin([s EXCEPT !.q = Tail(@)], Head(s.q)))
Asked(s, kind, id) == Drain([s EXCEPT !.q = Append(@, [kind |-> kind, id |-> id])])
\* The client has started, or has not
CameUp(s, ok) ==
    IF ~ok THEN Done(s, s.cur, FALSE)
    ELSE LET t == [s EXCEPT !.st = "started", !.client = s.n, !.binary = s.cur.binary, !.folder = s.cur.folder,
                            !.out.events = Append(@, [state |-> "started", binary |-> s.cur.binary, folder |-> FsPath(s.cur.folder)])]
         IN Done([t EXCEPT !.path = OnPATH(t)], s.cur, TRUE)
\* The client has stopped; when it could not, the session is over all the same.
WentDown(s, ok) ==
    LET t == [s EXCEPT !.st = "stopped", !.client = 0, !.binary = "", !.path = "",
                       !.out.events = Append(@, [state |-> "stopped", binary |-> "", folder |-> ""])]
    IN IF ~ok THEN Done(t, s.cur, FALSE)
       ELSE IF s.cur.kind = "restart" THEN Launch(t, s.cur) ELSE Done(t, s.cur, TRUE)
Settled(s, ok) ==
    CASE s.cur.phase = "start" -> Drain(CameUp(s, ok))
      [] s.cur.phase = "stop" -> Drain(WentDown(s, ok))
      [] OTHER -> [s EXCEPT !.out.odd = <<"nothing is pending">>]
Pending(s) == IF s.cur.phase = "none" THEN <<>> ELSE <<[kind |-> s.cur.phase, n |-> s.n]>>

-----------------------------------------------------------------------------
(* The server asks for configuration: of documents, with their language in mind. *)
Configured(s, items, fails) ==
    IF fails THEN <<"error">>
    ELSE [k \in 1..Len(items) |->
        LET i == items[k] IN
        IF i.section = "" \/ i.doc = 0 THEN "next " \o ToString(k)
        ELSE LET d == s.docs[i.doc] IN
             IF ~d.open THEN "next " \o ToString(k)
             ELSE Get(s, IF d.scheme = "file" THEN FolderOf(s, d.path) ELSE Nowhere, d.language, i.section)]

(* The server tells the configuration of files. *)
Applied(s, n) ==
    IF s.told[n].width = 0 THEN s
    ELSE LET d == s.docs[n]
             spaces == s.told[n].style = "space"
             width == ToString(s.told[n].width)
             own == Get(s, IF d.scheme = "file" THEN FolderOf(s, d.path) ELSE Nowhere, "r", "editor.tabSize")
         IN [s EXCEPT !.options[n] = [@ EXCEPT !.insertSpaces = IF spaces THEN "true" ELSE "false", !.indentSize = width,
                                               !.tabSize = IF spaces THEN width ELSE own]]
Untold == [style |-> "none", width |-> 0]
Told(s, files) ==
    LET t == [s EXCEPT !.told = [n \in 1..Len(s.docs) |->
                  IF \E f \in Set(files) : f.doc = n THEN LET f == CHOOSE f \in Set(files) : f.doc = n IN [style |-> f.style, width |-> f.width]
                  ELSE Untold]]
    IN IF s.active = 0 THEN t ELSE Applied(t, s.active)
Looked(s, n) == IF n = 0 THEN [s EXCEPT !.active = 0] ELSE Applied([s EXCEPT !.active = n], n)

-----------------------------------------------------------------------------
(* Views of the active document, if it is a file of R code. *)
IsR(s, n) == n # 0 /\ s.docs[n].language = "r" /\ s.docs[n].scheme = "file"
Views == [viewTreeSitter |-> <<"TreeSitter", "air-tree-sitter://syntax/treesitter">>,
          viewSyntaxTree |-> <<"SyntaxTree", "air-syntax-tree://syntax/rowan.rast">>,
          viewFormatTree |-> <<"FormatTree", "air-format-tree://format/biome">>]
Every == <<"viewTreeSitter", "viewSyntaxTree", "viewFormatTree">>
Refresh(s) == [s EXCEPT !.out.refreshed = {Views[v][2] : v \in DOMAIN Views}]
RECURSIVE View(_, _, _)
View(s, names, id) ==
    IF names = <<>> THEN Answer(s, id, TRUE)
    ELSE IF IsR(s, s.active) /\ s.client = 0 THEN Answer(s, id, FALSE)
    ELSE LET v == Views[names[1]]
             r == [client |-> s.client, method |-> "air/viewFile", uri |-> "file://" \o FsPath(s.docs[s.active].path),
                   line |-> s.active - 1, character |-> 2 * (s.active - 1), kind |-> v[1]]
             t == [s EXCEPT !.out.shown = Append(@, v[2]), !.out.refreshed = @ \union {v[2]}]
         IN View(IF IsR(s, s.active) THEN [t EXCEPT !.out.requests = Append(@, r)] ELSE t, Tail(names), id)
Viewed(s, o) == View(s, IF o.command \in DOMAIN Views THEN <<o.command>> ELSE Every, o.id)

-----------------------------------------------------------------------------
(* The commands that initialize and format a folder. *)
Ask(s, kind, modal, items, choices) == [s EXCEPT !.out.asks = Append(@, [kind |-> kind, modal |-> modal, items |-> items, choices |-> choices])]
Unsaved(s, folder) ==
    SelectSeq([n \in 1..Len(s.docs) |-> n],
              LAMBDA n : LET d == s.docs[n] IN d.open /\ ~d.closed /\ d.dirty /\ d.scheme # "untitled" /\ Within(folder.path, d.path))
\* [s, go]: everything is saved, or the user (or the disk) doesn't want to
Saved(s, folder, o) ==
    LET d == Unsaved(s, folder)
        t == Ask(s, "information", TRUE, <<>>, 2)
    IN IF d = <<>> THEN [s |-> s, go |-> TRUE]
       ELSE IF o.save # "Yes" THEN [s |-> t, go |-> FALSE]
       ELSE [s |-> [t EXCEPT !.out.saved = d, !.docs = [n \in DOMAIN @ |-> IF n \in Set(d) /\ @[n].saves THEN [@[n] EXCEPT !.dirty = FALSE] ELSE @[n]]],
             go |-> \A n \in Set(d) : s.docs[n].saves]
Format(s, folder, o) ==
    LET v == Saved(s, folder, o)
        dir == FsPath(folder.path)
        t == [v.s EXCEPT !.out.ran = <<[command |-> s.binary, args |-> <<"format", dir, "--no-color">>, cwd |-> dir]>>]
    IN IF ~v.go THEN v.s
       ELSE IF o.run = "ok" THEN Ask(t, "information", FALSE, <<>>, 0)
       ELSE [Ask(t, "information", TRUE, <<>>, 2) EXCEPT !.out.logs = IF o.logs = "Yes" THEN 1 ELSE 0]
Has(s, p) == \E f \in s.files : f.path = p
Write(s, f) == [s EXCEPT !.files = {g \in @ : g.path # f.path} \union {f}, !.out.wrote = @ \union {FsPath(f.path)}]
Ignored == <<"^\\.vscode$", "^[.]?air[.]toml$">>
Initialize(s, folder) ==
    LET At(p) == folder.path \o p
        toml == IF Has(s, At(<<"air.toml">>)) \/ Has(s, At(<<".air.toml">>)) THEN s
                ELSE Write(s, [path |-> At(<<"air.toml">>), lines |-> <<>>, crlf |-> FALSE, final |-> FALSE])
        ext == At(<<".vscode", "extensions.json">>)
        recommended == IF Has(toml, ext) THEN toml
                       ELSE Write(toml, [path |-> ext, lines |-> <<"Posit.air-vscode">>, crlf |-> FALSE, final |-> FALSE])
        Own(key, value) == [layer |-> "folder", folder |-> folder.path, key |-> key, value |-> value]
        set == [recommended EXCEPT !.settings = PutAll(@, <<
                    Own("[r]editor.formatOnSave", "true"), Own("[r]editor.defaultFormatter", "Posit.air-vscode"),
                    Own("[quarto]editor.formatOnSave", "true"), Own("[quarto]editor.defaultFormatter", "quarto.quarto")>>)]
        ign == At(<<".Rbuildignore">>)
        f == CHOOSE f \in set.files : f.path = ign
        missing == SelectSeq(Ignored, LAMBDA p : p \notin Set(f.lines))
    IN IF ~Has(set, ign) \/ missing = <<>> THEN set
       ELSE Write(set, [f EXCEPT !.lines = @ \o missing, !.final = TRUE])
Chosen(s, o) == IF Len(s.folders) = 1 THEN 1 ELSE IF o.pick \in 1..Len(s.folders) THEN o.pick ELSE 0
Command(s, o) ==
    LET names == [n \in 1..Len(s.folders) |-> s.folders[n].name]
        picked == IF Len(s.folders) = 1 THEN s ELSE Ask(s, "pick", FALSE, names, Len(names))
        k == Chosen(s, o)
        folder == s.folders[k]
        v == Saved(picked, folder, o)
        done == Ask(Initialize(v.s, folder), "information", FALSE, <<>>, 1)
    IN IF s.folders = <<>> THEN Answer(Ask(s, "error", FALSE, <<>>, 0), o.id, TRUE)
       ELSE IF k = 0 THEN Answer(picked, o.id, TRUE)
       ELSE IF s.binary = "" THEN Answer(picked, o.id, FALSE)
       ELSE Answer(IF o.command = "Formatting" THEN Format(picked, folder, o)
                   ELSE IF ~v.go THEN v.s ELSE IF o.after THEN Format(done, folder, o) ELSE done, o.id, TRUE)

-----------------------------------------------------------------------------
Quiet == [settled |-> <<>>, events |-> <<>>, clients |-> <<>>, odd |-> <<>>, got |-> <<>>, requests |-> <<>>, refreshed |-> {}, shown |-> <<>>,
          asks |-> <<>>, saved |-> <<>>, ran |-> <<>>, logs |-> 0, wrote |-> {}]
World(e) ==
    [trusted |-> e.trusted, binaries |-> Set(e.binaries), PATH |-> e.PATH, folders |-> e.folders, settings |-> PutAll({}, e.settings),
     docs |-> e.docs, files |-> Set(e.files), active |-> 0, told |-> [n \in 1..Len(e.docs) |-> Untold],
     options |-> [n \in 1..Len(e.docs) |-> [insertSpaces |-> IF e.docs[n].spaces THEN "true" ELSE "false", tabSize |-> "8", indentSize |-> "8", cursorStyle |-> "1"]],
     st |-> "stopped", client |-> 0, binary |-> "", folder |-> <<>>, cur |-> Idle, q |-> <<>>, n |-> 0, path |-> "", out |-> Quiet]
Does(s, o) ==
    CASE o.op = "activate" -> Asked(s, "start", Hidden)
      [] o.op \in {"start", "stop", "restart"} -> Asked(s, o.op, o.id)
      [] o.op = "deactivate" -> Asked(s, "stop", Hidden)
      [] o.op = "settle" -> Settled(s, o.ok)
      [] o.op = "setting" ->
             LET t == [s EXCEPT !.settings = Put(@, o)] IN
             IF o.key = "air.addExecutableToTerminalPath" /\ t.st = "started" THEN [t EXCEPT !.path = OnPATH(t)] ELSE t
      [] o.op = "trust" -> [s EXCEPT !.trusted = TRUE]
      [] o.op = "file" -> [s EXCEPT !.binaries = IF o.there THEN @ \union {o.path} ELSE @ \ {o.path}]
      [] o.op = "folders" -> [s EXCEPT !.folders = o.folders]
      [] o.op = "document" -> [s EXCEPT !.docs[o.n] = [@ EXCEPT !.open = o.open, !.closed = o.closed, !.dirty = o.dirty, !.saves = o.saves]]
      [] o.op = "configuration" -> [s EXCEPT !.out.got = Configured(s, o.items, o.fails)]
      [] o.op = "sync" -> Told(s, o.files)
      [] o.op = "active" -> LET t == Looked(s, o.doc) IN IF IsR(s, o.doc) THEN Refresh(t) ELSE t
      [] o.op = "typed" -> IF IsR(s, o.doc) THEN Refresh(s) ELSE s
      [] o.op = "view" -> Viewed(s, o)
      [] o.op = "command" -> Command(s, o)
Step(s, o) == Does([s EXCEPT !.out = Quiet], o)
\* What the editor sees of the server's life
Seen(s) == [settled |-> s.out.settled, events |-> s.out.events, clients |-> s.out.clients, pending |-> Pending(s),
            client |-> s.client, binary |-> s.binary, path |-> s.path, odd |-> s.out.odd]
=============================================================================
