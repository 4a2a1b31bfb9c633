----------------------------- MODULE Trace_Logs -----------------------------
(* Recorded sessions: what the client gave, which places logged then, at which        *)
(* levels, and who heard it. Mark n is that of place (n - 1) \div 5 + 1, at the level *)
(* (n - 1) % 5 + 1; mark 0, of "lsp" at level "error", is the last.                   *)
EXTENDS Logs, TLC, Json, IOUtils
VARIABLES ep, i, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<ep, i, log, bad>>
E == Eps[ep]
\* Clients that show what is logged; others have it on stderr.
Listens(client) == client \in {"Zed", "Zed Preview", "Visual Studio Code", "Visual Studio Code - Insiders"}
Plain(d) == [kind |-> d.kind, list |-> d.list]
Env(e) == [level |-> e.env.level, deps |-> Plain(e.env.deps)]
Step(s) == [reply |-> s.reply, level |-> s.level, deps |-> Plain(s.deps)]
FirstOf(e) == [how |-> e.first.how, level |-> e.first.level, deps |-> Plain(e.first.deps)]

Marks(filter, levels) ==
    SelectSeq([n \in 1..(5 * Len(levels)) |-> n], LAMBDA n : ((n - 1) % 5) + 1 <= LevelOf(filter, levels[((n - 1) \div 5) + 1].target))
    \o <<0>>
Seen(seen, l, told) ==
    /\ \A n \in 1..Len(seen.levels) : seen.levels[n].level = LevelOf(l.filter, seen.levels[n].target) /\ ~seen.levels[n].odd
    /\ seen.types /\ seen.whole
    /\ IF Listens(E.client)
       THEN seen.heard = Marks(l.filter, seen.levels) /\ seen.written = <<>> /\ seen.wrote = <<>> /\ seen.told = told
       ELSE seen.written = Marks(l.filter, seen.levels) /\ seen.heard = <<>> /\ seen.told = <<>> /\ seen.wrote = told
\* The directives in use as they were written.
Text(text) == IF E.env.deps.kind # "none" THEN E.env.deps.text ELSE text
GivenText(l) ==
    LET texts == {E.first.deps.text : x \in {x \in {1} : Plain(E.first.deps) = l.given.deps}}
                 \union {E.steps[k].deps.text : k \in {k \in 1..Len(E.steps) : Plain(E.steps[k].deps) = l.given.deps}}
    IN IF l.given.deps.kind = "none" THEN "none" ELSE CHOOSE t \in texts : TRUE
Telling(l) == <<[level |-> l.level, deps |-> Text(GivenText(l))]>>

TInit == ep = 1 /\ i = 0 /\ log = <<>> /\ bad = 0
Over == E.ended.answered /\ E.ended.over
Result(ok) ==
    IF ok THEN i' = i + 1 /\ UNCHANGED <<ep, bad>>
    ELSE PrintT(<<"BAD", ToJson([ep |-> ep, step |-> i, want |-> log'])>>) /\ bad' = bad + 1 /\ ep' = ep + 1 /\ i' = 0
TNext ==
    /\ ep <= Len(Eps)
    /\ IF i > Len(E.steps)
       THEN /\ log' = <<>>
            /\ IF Over THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT(<<"BAD", ToJson([ep |-> ep, step |-> "end"])>>)
            /\ ep' = ep + 1 /\ i' = 0
       ELSE IF i = 0
       THEN /\ log' = Using(Env(E), First(FirstOf(E)))
            /\ Result(Seen(E.seen, log', IF LevelOf(log'.filter, "lsp") >= 3 THEN Telling(log') ELSE <<>>))
       ELSE LET s == Step(E.steps[i]) IN
            /\ log' = Answered(log, Env(E), s)
            /\ Result(Seen(E.steps[i].seen, log', IF Tells(log, log', Env(E), s) THEN Telling(log') ELSE <<>>))
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
