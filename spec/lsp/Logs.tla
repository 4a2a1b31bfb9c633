-------------------------------- MODULE Logs --------------------------------
(* What the server logs. It has a level for air's own crates, and directives for      *)
(* those that it depends on; the client gives both at the start, and whenever its     *)
(* configuration changes, and variables of the environment go before what it gives.   *)
(*                                                                                    *)
(* A level that is not given is "none", one of another type "wrong". Directives are   *)
(* [kind, list]: kind is "none", "wrong", "list", or "garbage" for a text that is no  *)
(* list of directives. A directive without a target is about all of them.             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES log   \* what the client gave last, and the levels in use

Words == <<"error", "warn", "info", "debug", "trace">>
Number(word) == IF word = "off" THEN 0 ELSE IF word = "warning" THEN 2 ELSE CHOOSE n \in 1..5 : Words[n] = word
Known(level) == level \in {"error", "warn", "warning", "info", "debug", "trace"}
Same(level) == IF level = "warning" THEN "warn" ELSE level
NoDeps == [kind |-> "none", list |-> <<>>]

-----------------------------------------------------------------------------
(* Places that log. *)
Own == {"lsp", "lsp::main_loop", "workspace::discovery", "air_r_formatter"}
Others == {"tokio", "tower_lsp", "tower_lsp::codec", "globset"}
Crates == {"lsp", "workspace", "air_r_formatter"}
\* Is the place in the target?
In(place, target) ==
    \/ target = "" \/ place = target
    \/ <<place, target>> \in {<<"lsp::main_loop", "lsp">>, <<"workspace::discovery", "workspace">>, <<"tower_lsp::codec", "tower_lsp">>}

-----------------------------------------------------------------------------
(* As the code has it: a list of directives, the most specific of which counts. *)
Put(list, d) ==
    IF \E n \in 1..Len(list) : list[n].target = d.target
    THEN [n \in 1..Len(list) |-> IF list[n].target = d.target THEN d ELSE list[n]]
    ELSE Append(list, d)
PutAll(list, more) == LET F[n \in 0..Len(more)] == IF n = 0 THEN list ELSE Put(F[n - 1], more[n]) IN F[Len(more)]
Filter(level, deps) ==
    PutAll(PutAll(<<>>, IF deps.kind = "list" THEN deps.list ELSE <<>>),
           <<[target |-> "lsp", level |-> level], [target |-> "workspace", level |-> level], [target |-> "air_r_formatter", level |-> level]>>)
LevelOf(filter, place) ==
    LET fit == {n \in 1..Len(filter) : In(place, filter[n].target)}
        best == CHOOSE n \in fit : \A m \in fit : Len(filter[m].target) <= Len(filter[n].target)
    IN IF fit = {} THEN 0 ELSE Number(filter[best].level)

Level(env, given) == IF Known(env.level) THEN Same(env.level) ELSE IF given.level # "none" THEN Same(given.level) ELSE "info"
Deps(env, given) == IF env.deps.kind # "none" THEN env.deps ELSE given.deps
Using(env, given) ==
    [given |-> given, level |-> Level(env, given), deps |-> Deps(env, given), filter |-> Filter(Level(env, given), Deps(env, given))]
Legible(level, deps) == (level = "none" \/ Known(level)) /\ deps.kind # "wrong"

Nothing == [level |-> "none", deps |-> NoDeps]
Given(level, deps) == [level |-> Same(level), deps |-> deps]
\* What is given at the start, if it can be read.
First(first) == IF first.how = "given" /\ Legible(first.level, first.deps) THEN Given(first.level, first.deps) ELSE Nothing
LInit(env, first) == log = Using(env, First(first))
\* The client's answer when it is asked.
Answered(l, env, step) ==
    IF step.reply # "ok" \/ ~Legible(step.level, step.deps) \/ Given(step.level, step.deps) = l.given THEN l
    ELSE Using(env, Given(step.level, step.deps))
\* Are the levels told? They are if they are given anew, unless the level hides it.
Tells(old, new, env, step) ==
    /\ step.reply = "ok" /\ Legible(step.level, step.deps) /\ Given(step.level, step.deps) # old.given
    /\ LevelOf(new.filter, "lsp") >= 3

-----------------------------------------------------------------------------
(* What holds of it. *)
\* Air's own crates are at the level of the environment, or else that of the client, or else at "info", but for modules
\* that a directive names.
OwnLevel(env) ==
    \A place \in Crates :
        LevelOf(log.filter, place) =
            (IF Known(env.level) THEN Number(env.level) ELSE IF log.given.level # "none" THEN Number(log.given.level) ELSE 3)
\* The others do not log unless there are directives that say so.
Silent(env) ==
    \A place \in Others :
        LevelOf(log.filter, place) > 0 =>
            LET d == IF env.deps.kind # "none" THEN env.deps ELSE log.given.deps IN
            d.kind = "list" /\ \E n \in 1..Len(d.list) : In(place, d.list[n].target) /\ Number(d.list[n].level) = LevelOf(log.filter, place)
=============================================================================
