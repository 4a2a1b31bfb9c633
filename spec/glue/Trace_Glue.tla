----------------------------- MODULE Trace_Glue -----------------------------
EXTENDS Glue, Json, IOUtils
VARIABLES ep, i, bad
Eps == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<exists, cwd, env, dirs, saved, scopes, tree, ep, i, bad>>
E == Eps[ep].events[i]
Dirs == {<<>>, <<"a">>, <<"a", "b">>, <<"c">>}
Now == E.now.cwd = cwd' /\ E.now.env = env'
Ran == /\ UNCHANGED gvars
       /\ E.seen.args = Command(E.text) /\ E.seen.cwd = Last(dirs) /\ E.seen.env = env /\ E.seen.stdin = E.stdin
       /\ E.ok = (E.exit = 0 /\ E.utf8)
       /\ (E.ok => E.ret = Trim(E.out))
Scoped ==
    CASE E.op = "pushd" -> IF E.ok THEN Pushd(E.abs, E.path) /\ Now ELSE PushdFails(E.abs, E.path) /\ Now
      [] E.op = "pushenv" -> Pushenv(E.var, E.value) /\ Now
      [] E.op = "leave" -> Leave /\ Now
      [] E.op = "unwind" -> Unwind(E.to) /\ Now
      [] E.op = "run" -> Ran /\ Now
      [] E.op = "stream" -> E.same /\ UNCHANGED gvars
      [] E.op = "start" -> env' = E.env /\ UNCHANGED <<exists, cwd, dirs, saved, scopes>>
      [] OTHER -> FALSE
Tree(nodes) == [p \in {nodes[k].path : k \in 1..Len(nodes)} |->
                  LET n == CHOOSE n \in {nodes[k] : k \in 1..Len(nodes)} : n.path = p
                  IN Node(n.kind, IF n.kind = "dir" THEN <<>> ELSE <<n.content>>)]
Did(possible, action) == action /\ E.ok = possible
Filed ==
    /\ CASE E.op = "write" -> Did(CanWrite(E.path), Write(E.path, <<E.content>>))
         [] E.op = "copy" -> Did(CanCopy(E.path, E.to), Copy(E.path, E.to))
         [] E.op = "remove-file" -> Did(IsFile(E.path), RemoveFile(E.path))
         [] E.op = "remove-dir" -> Did(IsDir(E.path), RemoveDir(E.path))
         [] E.op = "make-dirs" -> Did(CanMakeDirs(E.path), MakeDirs(E.path))
         [] E.op = "link" -> IF IsDir(Front(E.path)) THEN Did(TRUE, Link(E.path, <<E.target>>)) ELSE Did(FALSE, UNCHANGED tree)
         [] E.op = "rm-rf" -> Did(TRUE, RmRf(E.path))
         [] OTHER -> FALSE
    /\ E.named /\ E.kept /\ Tree(E.tree) = tree'
    /\ LET p == E.path there == p \in DOMAIN tree' IN
       IF there /\ tree'[p].kind = "link" THEN TRUE
       ELSE /\ E.read = (IF there /\ tree'[p].kind = "file" THEN tree'[p].content ELSE <<>>)
            /\ E.list = (IF there /\ tree'[p].kind = "dir"
                         THEN <<IF \E q \in DOMAIN tree' : Len(q) = Len(p) + 1 /\ IsPrefix(p, q) THEN E.list[1] ELSE <<>>>>
                         ELSE <<>>)
            /\ (E.list # <<>> => {E.list[1][k] : k \in 1..Len(E.list[1])} = {Last(q) : q \in {q \in DOMAIN tree' : Len(q) = Len(p) + 1 /\ IsPrefix(p, q)}})
\* `rustfmt` is asked for its version, then for the text; a toolchain other than stable is no good.
Reformatted ==
    /\ E.op = "reformat" /\ E.toolchains /\ E.restored
    /\ E.ok = (E.stable /\ E.exit = "0")
    /\ (E.ok => E.ret = (CASE E.how = 0 -> E.preamble [] E.how = 1 -> <<>> [] E.how = 2 -> E.command) \o Append(Trim(E.text), 10))
Step == \/ Scoped /\ UNCHANGED tree
        \/ Filed /\ UNCHANGED gvars
        \/ Reformatted /\ UNCHANGED <<gvars, tree>>
TInit == /\ exists = Dirs /\ cwd = <<>> /\ dirs = <<<<>>>> /\ saved = <<>> /\ scopes = <<>> /\ env = [A |-> <<>>, B |-> <<>>]
         /\ tree = <<>> /\ ep = 1 /\ i = 1 /\ bad = 0
Reset == /\ exists' = Dirs /\ cwd' = <<>> /\ dirs' = <<<<>>>> /\ saved' = <<>> /\ scopes' = <<>> /\ env' = [A |-> <<>>, B |-> <<>>]
         /\ tree' = <<>>
TNext ==
    /\ ep <= Len(Eps)
    /\ IF i > Len(Eps[ep].events)
       THEN Reset /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad
       ELSE IF ENABLED Step
       THEN Step /\ i' = i + 1 /\ UNCHANGED <<ep, bad>>
       ELSE /\ PrintT(<<"BAD", ToJson([ep |-> ep, event |-> i])>>)
            /\ Reset /\ ep' = ep + 1 /\ i' = 1 /\ bad' = bad + 1
TSpec == TInit /\ [][TNext]_tvars
Finished == ep > Len(Eps) => PrintT(<<"DONE", ToJson(Len(Eps))>>)
=============================================================================
