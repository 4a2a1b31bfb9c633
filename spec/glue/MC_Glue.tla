------------------------------- MODULE MC_Glue -------------------------------
EXTENDS Glue
CONSTANTS Depth, Values, Alphabet, Length
VARIABLES snaps, steps, text
vars == <<exists, cwd, env, dirs, saved, scopes, tree, snaps, steps, text>>
Vars == {"A", "B"}
Dirs == {<<>>, <<"a">>, <<"a", "b">>, <<"c">>}
Snap == [cwd |-> cwd, env |-> env]
Init == /\ exists = Dirs /\ cwd = <<>> /\ dirs = <<<<>>>> /\ saved = <<>> /\ scopes = <<>>
        /\ env \in [Vars -> {<<>>, <<"0">>}] /\ tree = <<>> /\ snaps = <<[cwd |-> cwd, env |-> env]>>
        /\ steps = 0 /\ text = <<>>
Targets == {<<FALSE, <<"a">>>>, <<FALSE, <<"b">>>>, <<TRUE, <<"c">>>>, <<FALSE, <<".">>>>, <<TRUE, <<"a", "b">>>>}
Push == \/ \E t \in Targets : Pushd(t[1], t[2])
        \/ \E v \in Vars, x \in Values : Pushenv(v, x)
Scoped == /\ steps < Depth /\ steps' = steps + 1 /\ UNCHANGED <<tree, text>>
          /\ \/ Push /\ snaps' = Append(snaps, [cwd |-> cwd', env |-> env'])
             \/ (\E t \in Targets : PushdFails(t[1], t[2])) /\ UNCHANGED snaps
             \/ Leave /\ snaps' = Front(snaps)
             \/ \E k \in 0..3 : Unwind(k) /\ snaps' = SubSeq(snaps, 1, k + 1)
Spec == Init /\ [][Scoped]_vars
\* Whatever happened inside, a scope that is left leaves everything as it was before.
Restored == Snap = Last(snaps)
Stacks == cwd = Last(dirs) /\ Len(dirs) = 1 + Count(scopes, "dir") /\ Len(saved) = Count(scopes, "env")

Type == /\ Len(text) < Length /\ \E ch \in Alphabet : text' = Append(text, ch)
        /\ UNCHANGED <<exists, cwd, env, dirs, saved, scopes, tree, snaps, steps>>
TextInit == Init /\ env = [v \in Vars |-> <<>>]
TextSpec == TextInit /\ [][Type]_vars
SameWords == Command(text) = Scan(text, <<>>, <<>>, FALSE)

Names == {<<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>}
Change == /\ steps < Depth /\ steps' = steps + 1
          /\ \/ \E p \in Names, v \in Values : Write(p, v)
             \/ \E p, q \in Names : p # q /\ ~IsLink(p) /\ ~IsLink(q) /\ Copy(p, q)
             \/ \E p \in Names : RemoveFile(p) \/ (~IsLink(p) /\ RemoveDir(p)) \/ MakeDirs(p) \/ RmRf(p)
             \/ \E p \in Names : p \notin Paths /\ IsDir(Front(p)) /\ Link(p, "kept")
          /\ UNCHANGED <<exists, cwd, env, dirs, saved, scopes, snaps, text>>
TreeSpec == TextInit /\ [][Change]_vars
\* Everything is in a directory.
Wellformed == \A p \in Paths : IsDir(Front(p))
Gone == [][\A p \in Names : RmRf(p) /\ tree' # tree => p \notin DOMAIN tree' /\ \A q \in Paths : ~IsPrefix(p, q) => q \in DOMAIN tree']_tree
=============================================================================
