------------------------------ MODULE MC_Logs ------------------------------
EXTENDS Logs, TLC, Json, IOUtils
CONSTANTS MaxSteps, Levels, Rich
VARIABLES env, first, steps
mvars == <<log, env, first, steps>>
List(l) == [kind |-> "list", list |-> l]
D(target, level) == [target |-> target, level |-> level]
AllDeps == {NoDeps, [kind |-> "wrong", list |-> <<>>], [kind |-> "garbage", list |-> <<>>], List(<<D("tokio", "debug")>>),
            List(<<D("", "warn"), D("lsp", "trace")>>)}
           \union (IF Rich THEN {List(<<D("tower_lsp", "info"), D("tower_lsp::codec", "off")>>),
                                 List(<<D("workspace", "off"), D("", "trace"), D("", "error")>>)} ELSE {})
Envs == {[level |-> l, deps |-> d] : l \in {"none", "debug", "loud"}, d \in {NoDeps, List(<<D("globset", "info")>>)}}
Init ==
    /\ env \in Envs
    /\ first \in {[how |-> "nonsense", level |-> "none", deps |-> NoDeps]} \union {[how |-> "given", level |-> l, deps |-> d] : l \in Levels, d \in AllDeps}
    /\ LInit(env, first) /\ steps = <<>>
Next ==
    /\ Len(steps) < MaxSteps
    /\ \E reply \in {"ok", "fail", "short"} : \E l \in Levels : \E d \in AllDeps :
        /\ reply # "ok" => l = "error" /\ d = NoDeps
        /\ LET step == [reply |-> reply, level |-> l, deps |-> d] IN
           /\ log' = Answered(log, env, step)
           /\ steps' = Append(steps, step)
    /\ UNCHANGED <<env, first>>
Spec == Init /\ [][Next]_mvars
Right == OwnLevel(env) /\ Silent(env)
\* The environment's word is the last one.
Fixed == [][Known(env.level) => log'.level = log.level]_mvars
Places == <<"lsp", "lsp::main_loop", "workspace::discovery", "air_r_formatter", "tokio", "tower_lsp", "tower_lsp::codec", "globset">>
Emit == "EMIT" \in DOMAIN IOEnv =>
    PrintT(<<"CASE", ToJson([client |-> IF Len(steps) = 1 THEN "Zed" ELSE "", env |-> env, first |-> first, steps |-> steps,
                             levels |-> [n \in 1..Len(Places) |-> LevelOf(log.filter, Places[n])]])>>)
=============================================================================
