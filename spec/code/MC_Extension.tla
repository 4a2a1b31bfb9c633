----------------------------- MODULE MC_Extension -----------------------------
(* The extension in small worlds, one Part of it at a time.                          *)
EXTENDS Extension, Json, IOUtils
CONSTANTS Part, MaxSteps
VARIABLES s, setup, steps, hist,
          asked, answered,   \* requests of the server's life, and those that came to an end
          alive              \* clients that were started, and not yet stopped
mvars == <<s, setup, steps, hist, asked, answered, alive>>
Keeps == "EMIT" \in DOMAIN IOEnv

A == [name |-> "a", path |-> <<"w", "a">>, there |-> TRUE]
AB == [name |-> "a", path |-> <<"w", "ab">>, there |-> TRUE]      \* of the same name
Inner == [name |-> "in", path |-> <<"w", "a", "in">>, there |-> TRUE]
File(p) == [scheme |-> "file", rooted |-> TRUE, path |-> p, fragment |-> "", language |-> "r", dirty |-> FALSE, closed |-> FALSE,
            saves |-> TRUE, open |-> TRUE, spaces |-> FALSE]
Base == [trusted |-> TRUE, defined |-> TRUE, binaries |-> <<Bundled, "~/p/air">>, PATH |-> <<"~/e1">>, folders |-> <<A>>,
         settings |-> <<>>, docs |-> <<File(<<"w", "a", "x.R">>)>>, files |-> <<>>]
User(key, value) == [layer |-> "user", folder |-> <<>>, key |-> key, value |-> value]
Own(f, key, value) == [layer |-> "folder", folder |-> f.path, key |-> key, value |-> value]
SetOf(key, values) == {<<>>} \union {<<User(key, v)>> : v \in values}
Orders(xs) == {o \in [1..Cardinality(xs) -> xs] : \A i, j \in DOMAIN o : o[i] = o[j] => i = j}

-----------------------------------------------------------------------------
(* The worlds. *)
BinaryWorlds ==
    {[Base EXCEPT !.trusted = t, !.binaries = b, !.PATH = p, !.settings = st \o given] :
        t \in BOOLEAN, b \in {SelectSeq(<<Bundled, "~/e1/air", "~/e2/air", "~/p/air">>, LAMBDA x : x \in xs) : xs \in SUBSET {Bundled, "~/e1/air", "~/e2/air", "~/p/air"}},
        p \in {<<>>, <<"~/e1">>, <<"~/none", "~/e2", "~/e1">>},
        st \in SetOf("air.executableStrategy", {"bundled", "environment", "path", "other"}),
        given \in SetOf("air.executablePath", {"~/p/air", "~/p/none", "~/e2/air"})}
FolderWorlds ==
    LET Of(xs, gone) == {[n \in DOMAIN o |-> [o[n] EXCEPT !.there = o[n] \notin gone]] : o \in Orders(xs)}
        LONG == [name |-> "l", path |-> <<"w", "long-one">>, there |-> TRUE]
        Gone(xs) == {g \in SUBSET xs : A \in g => Inner \notin xs \/ Inner \in g}
        \* each has its own idea of where the binary is
        ideas == <<Own(A, "air.executableStrategy", "path"), Own(A, "air.executablePath", "~/p/air"), Own(AB, "air.executableStrategy", "environment"),
                   Own(Inner, "air.addExecutableToTerminalPath", "false"), Own(LONG, "air.logLevel", "debug"), User("air.dependencyLogLevels", "a=info")>>
    IN {[Base EXCEPT !.folders = f, !.settings = ideas, !.binaries = <<Bundled, "~/e1/air", "~/p/air">>] :
            f \in UNION {UNION {Of(xs, g) : g \in Gone(xs)} : xs \in SUBSET {A, AB, Inner, LONG}}}
SyncDocs == <<File(<<"w", "a", "x.R">>), File(<<"w", "a b.R">>), [File(<<"Untitled-1">>) EXCEPT !.scheme = "untitled", !.rooted = FALSE, !.spaces = TRUE]>>
SyncWorlds == {[Base EXCEPT !.docs = SyncDocs, !.settings = <<User("[r]editor.tabSize", "3"), Own(A, "editor.tabSize", "8")>>]}
AskWorlds ==
    {[Base EXCEPT !.docs = [SyncDocs EXCEPT ![1] = [@ EXCEPT !.language = l, !.open = o]],
                  !.settings = SelectSeq(<<User("[r]editor.tabSize", "3"), User("editor.tabSize", "6"), Own(A, "editor.tabSize", "8"), Own(A, "[quarto]editor.tabSize", "2"),
                                           Own(A, "[r]editor.tabSize", "7")>>, LAMBDA x : x \in xs)] :
        l \in {"r", "quarto"}, o \in BOOLEAN,
        xs \in SUBSET {User("[r]editor.tabSize", "3"), User("editor.tabSize", "6"), Own(A, "editor.tabSize", "8"), Own(A, "[quarto]editor.tabSize", "2"),
                       Own(A, "[r]editor.tabSize", "7")}}
Text(f, name, lines) == [path |-> f.path \o name, lines |-> lines, crlf |-> FALSE, final |-> lines # <<>>]
CommandFiles ==
    {SelectSeq(<<Text(A, <<"air.toml">>, <<"# mine">>), Text(A, <<".air.toml">>, <<>>), Text(A, <<".vscode", "extensions.json">>, <<"{ }">>)>>, LAMBDA x : x \in xs) \o i :
        xs \in SUBSET {Text(A, <<"air.toml">>, <<"# mine">>), Text(A, <<".air.toml">>, <<>>), Text(A, <<".vscode", "extensions.json">>, <<"{ }">>)},
        i \in {<<>>} \union {<<Text(A, <<".Rbuildignore">>, l)>> : l \in {<<>>, <<"^renv$">>, <<Ignored[2]>>, <<Ignored[1], "x", Ignored[2]>>}}
              \union {<<[Text(A, <<".Rbuildignore">>, <<"^renv$", Ignored[1]>>) EXCEPT !.crlf = c, !.final = FALSE]>> : c \in BOOLEAN}}
CommandWorlds ==
    {[Base EXCEPT !.folders = f, !.files = fs] : f \in {<<A>>}, fs \in CommandFiles}
    \union {[Base EXCEPT !.folders = f, !.settings = <<Own(A, "[r]editor.tabSize", "3"), Own(A, "[r]editor.formatOnSave", "false"), User("[quarto]editor.wordWrap", "on")>>,
                         !.docs = <<[File(<<"w", "a", "x.R">>) EXCEPT !.dirty = TRUE], [File(<<"w", "ab", "y.R">>) EXCEPT !.dirty = TRUE, !.saves = v],
                                    [File(<<"w", "a", "in", "z.R">>) EXCEPT !.dirty = d, !.closed = c]>>] :
               f \in {<<>>, <<A>>, <<AB, A>>, <<A, Inner, AB>>}, d \in BOOLEAN, c \in BOOLEAN, v \in BOOLEAN}
Worlds == CASE Part = "life" -> {Base} [] Part = "binary" -> BinaryWorlds [] Part = "folders" -> FolderWorlds
            [] Part = "sync" -> SyncWorlds [] Part = "ask" -> AskWorlds [] Part = "commands" -> CommandWorlds
            [] Part = "views" -> {[Base EXCEPT !.docs = SyncDocs \o <<[File(<<"w", "a", "y.md">>) EXCEPT !.language = "quarto"]>>]}

-----------------------------------------------------------------------------
(* What can happen. *)
Settle == {[op |-> "settle", ok |-> b] : b \in BOOLEAN}
Change(key, value) == [op |-> "setting", layer |-> "user", folder |-> <<>>, key |-> key, value |-> value]
CommandOp(c, pick, save, after, run, logs) ==
    [op |-> "command", id |-> steps, command |-> c, pick |-> pick, save |-> save, after |-> after, run |-> run, logs |-> logs]
Happens ==
    CASE Part = "life" ->
             {[op |-> k, id |-> steps] : k \in {"start", "stop", "restart"}}
             \union (IF s.cur.phase = "none" THEN {} ELSE Settle)
             \union {Change("air.addExecutableToTerminalPath", v) : v \in {"true", "false"}}
             \union {[op |-> "file", path |-> Bundled, there |-> b] : b \in BOOLEAN \ {Bundled \in s.binaries}}
             \union (IF steps > MaxSteps - 3 THEN {[op |-> "deactivate"]} ELSE {})
      [] Part \in {"binary", "folders"} -> IF s.cur.phase = "none" THEN {} ELSE {[op |-> "settle", ok |-> TRUE]}
      [] Part = "sync" ->
             {[op |-> "active", doc |-> n] : n \in (0..Len(s.docs)) \ {s.active}}
             \union {[op |-> "sync", files |-> fs] : fs \in {<<>>, <<[doc |-> 1, style |-> "tab", width |-> 6]>>,
                        <<[doc |-> 3, style |-> "space", width |-> 3], [doc |-> 1, style |-> "space", width |-> 1]>>,
                        <<[doc |-> 2, style |-> "space", width |-> 24], [doc |-> 3, style |-> "tab", width |-> 5]>>}}
             \union {Change("[r]editor.tabSize", v) : v \in {"none", "2"} \ {Value(s, "user", <<>>, "[r]editor.tabSize")}}
      [] Part = "ask" ->
             {[op |-> "configuration", fails |-> f, items |-> i] : f \in BOOLEAN,
                i \in {<<[section |-> "editor.tabSize", doc |-> 1]>>,
                       <<[section |-> "air.syncFileSettingsWithClient", doc |-> 0], [section |-> "editor.tabSize", doc |-> 3], [section |-> "editor.tabSize", doc |-> 1],
                         [section |-> "editor.indentSize", doc |-> 2], [section |-> "", doc |-> 1]>>}}
      [] Part = "commands" ->
             {CommandOp("Initialization", p, v, a, "ok", "") : p \in 0..3, v \in {"Yes", "No"}, a \in BOOLEAN}
             \union {CommandOp("Formatting", p, v, FALSE, r, l) : p \in {1, 2}, v \in {"Yes", ""}, r \in {"ok", "fails", "error"}, l \in {"Yes", "No"}}
      [] Part = "views" ->
             {[op |-> "active", doc |-> n] : n \in (0..Len(s.docs)) \ {s.active}}
             \union {[op |-> "typed", doc |-> n] : n \in {1, 3, 4}}
             \union {[op |-> "view", id |-> steps, command |-> c] : c \in DOMAIN Views \union {"viewFileRepresentations"}}
             \union (IF s.cur.phase = "none" THEN {[op |-> "restart", id |-> steps]} ELSE Settle)
\* Choices that nobody asks for are not worth telling apart.
Matters(o) ==
    o.op = "command" =>
        LET k == Chosen(s, o)
            d == IF k = 0 THEN <<>> ELSE Unsaved(s, s.folders[k])
        IN /\ (Len(s.folders) < 2 => o.pick = 1) /\ o.pick <= Len(s.folders) + 1
           /\ (d = <<>> => o.save = "Yes")
           /\ (o.run # "fails" => o.logs # "Yes")

-----------------------------------------------------------------------------
Visible(t, o) ==
    CASE o.op = "configuration" -> [got |-> t.out.got, odd |-> <<>>]
      [] o.op \in {"sync"} -> [editors |-> t.options, odd |-> <<>>]
      [] o.op = "active" -> [editors |-> t.options, refreshed |-> t.out.refreshed, odd |-> <<>>]
      [] o.op = "typed" -> [refreshed |-> t.out.refreshed, odd |-> <<>>]
      [] o.op = "view" -> [requests |-> t.out.requests, shown |-> t.out.shown, refreshed |-> t.out.refreshed, settled |-> t.out.settled, odd |-> <<>>]
      [] o.op = "command" -> [settled |-> t.out.settled, asks |-> t.out.asks, saved |-> t.out.saved, ran |-> t.out.ran, logs |-> t.out.logs, wrote |-> t.out.wrote,
                              files |-> t.files, settings |-> t.settings, odd |-> <<>>]
      [] OTHER -> Seen(t)
Ends(t) == [n \in 1..Len(t.out.settled) |-> t.out.settled[n].id]
Do(t, o) ==
    LET u == Step(t, o) IN
    /\ s' = u
    /\ hist' = IF Keeps THEN Append(hist, [op |-> o, out |-> Visible(u, o)]) ELSE <<>>
    /\ asked' = IF o.op \in {"start", "stop", "restart"} THEN Append(asked, o.id) ELSE asked
    /\ answered' = IF o.op \in {"view", "command"} THEN answered ELSE answered \o Ends(u)
    /\ alive' = (IF o.op = "settle" /\ t.cur.phase = "start" /\ o.ok THEN alive \union {t.n} ELSE IF o.op = "settle" /\ t.cur.phase = "stop" THEN alive \ {t.n} ELSE alive)
\* A server is up before anything else happens, where that isn't what is looked at.
Up(w) == Step(Step(World(w), [op |-> "activate"]), [op |-> "settle", ok |-> TRUE])
Begun(w) == Step(World(w), [op |-> "activate"])
Served == Part \in {"sync", "ask", "commands", "views"}
Init ==
    \E w \in Worlds :
        /\ setup = w
        /\ s = IF Served THEN Up(w) ELSE Begun(w)
        /\ steps = 1 /\ asked = <<>> /\ answered = <<>>
        /\ alive = IF Served THEN {1} ELSE {}
        /\ hist = IF ~Keeps THEN <<>>
                  ELSE <<[op |-> [op |-> "activate"], out |-> Seen(Begun(w))]>>
                       \o (IF Served THEN <<[op |-> [op |-> "settle", ok |-> TRUE], out |-> Seen(Up(w))]>> ELSE <<>>)
Happen == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED setup /\ \E o \in Happens : Matters(o) /\ Do(s, o)
\* What is pending comes to an end some time, however long the user waits.
Finish == steps = MaxSteps /\ ~Keeps /\ s.cur.phase # "none" /\ UNCHANGED <<setup, steps>> /\ \E b \in BOOLEAN : Do(s, [op |-> "settle", ok |-> b])
Next == Happen \/ Finish
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Finish) /\ WF_mvars(Happen)

-----------------------------------------------------------------------------
(* The server's life. *)
InvOneServer == Cardinality(alive) <= 1
InvWhole == (s.st = "started") = (s.client # 0) /\ (s.client # 0) = (s.binary # "") /\ (s.client # 0 => alive = {s.client})
InvBusy == s.cur.phase = "none" => s.q = <<>>
\* The terminals' PATH is that of the server that runs, if the user wants it.
InvPath == s.path = (IF s.st = "started" THEN OnPATH(s) ELSE "")
\* Every request comes to an end, in order, once.
InvInOrder == Within(answered, asked) /\ (s.cur.phase = "none" => answered = asked)
AllEnd == <>[](s.cur.phase = "none" /\ answered = asked)
\* Once the session is over nothing is left of it
InvLeftovers == (s.st = "stopped" /\ s.cur.phase = "none") => s.path = "" /\ alive = {}

(* The binary and the root. *)
InvTrust == (~s.trusted /\ s.cur.phase # "none") => s.cur.binary = Bundled
InvRuns == \A c \in Set(s.out.clients) : c.command \in s.binaries
Root1 == LET r == Root(s) IN s.folders # <<>> =>
    /\ \E f \in Set(s.folders) : f.path = r /\ (f.there \/ ~\E g \in Set(s.folders) : g.there)
    /\ \A f \in Set(s.folders) : (f.there /\ \E g \in Set(s.folders) : g.path = r /\ g.there) => PathLen(r) <= PathLen(f.path)
\* What isn't of the user is not for the server.
InvUserOnly == \A c \in Set(s.out.clients) : \A k \in {"logLevel", "dependencyLogLevels"} :
    c[k] # "none" => \E x \in s.settings : x.layer = "user" /\ x.key = "air." \o k /\ x.value = c[k]

(* What the server tells of files. *)
InvActive == (s.active # 0 /\ s.told[s.active].width # 0) =>
    LET o == s.options[s.active] t == s.told[s.active] IN
    o.indentSize = ToString(t.width) /\ o.insertSpaces = (IF t.style = "space" THEN "true" ELSE "false") /\ (t.style = "space" => o.tabSize = o.indentSize)
InvCursor == \A n \in DOMAIN s.options : s.options[n].cursorStyle = "1"

(* The commands. *)
\* Nothing is formatted that isn't saved, nor anything else than what was chosen.
InvFormat == s.out.ran # <<>> => \E f \in Set(s.folders) : s.out.ran[1].cwd = FsPath(f.path) /\ Unsaved(s, f) = <<>>
\* What the user wrote stays.
InvKept == \A f \in World(setup).files : \E g \in s.files : g.path = f.path /\ Within(f.lines, g.lines) /\ (g.path[Len(g.path)] # ".Rbuildignore" => f = g)
\* Initializing again is nothing.
InvAgain == \A f \in Set(s.folders) : LET t == Initialize(s, f) u == Initialize([t EXCEPT !.out = Quiet], f) IN
    u.files = t.files /\ u.settings = t.settings /\ u.out.wrote = {}
InvSettings == \A x \in PutAll({}, setup.settings) : (x.key \notin {"[r]editor.formatOnSave", "[r]editor.defaultFormatter"} /\ Part = "commands") => x \in s.settings

Emit == (Keeps /\ (steps = MaxSteps \/ ~\E o \in Happens : Matters(o))) => PrintT(<<"CASE", ToJson([setup |-> setup, hist |-> hist])>>)

=============================================================================
