-------------------------------- MODULE Glue --------------------------------
(* The build tasks' glue: working directory and environment variables that are set    *)
(* for the extent of a scope, commands that are run in them, and files.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

-----------------------------------------------------------------------------
(* Scopes. A path is a sequence of names below the base directory; there is no `..`   *)
(* above it.                                                                          *)
VARIABLES
    exists,   \* directories that are there
    cwd,      \* the working directory of the process
    env,      \* variable -> at most one value
    dirs,     \* stack of working directories, the first is the one at the start
    saved,    \* stack of [var, old]
    scopes    \* stack of "dir"/"env": the guards that are held
gvars == <<exists, cwd, env, dirs, saved, scopes>>

RECURSIVE Walk(_, _)
Walk(d, p) == IF p = <<>> THEN d
              ELSE Walk(IF Head(p) = "." THEN d ELSE IF Head(p) = ".." THEN Front(d) ELSE Append(d, Head(p)), Tail(p))
\* Relative to the innermost directory pushed.
Target(abs, p) == Walk(IF abs THEN <<>> ELSE Last(dirs), p)

Pushd(abs, p) ==
    /\ Target(abs, p) \in exists
    /\ dirs' = Append(dirs, Target(abs, p)) /\ cwd' = Target(abs, p)
    /\ scopes' = Append(scopes, "dir") /\ UNCHANGED <<exists, env, saved>>
\* There is no such directory: nothing has happened, and the caller is told so.
PushdFails(abs, p) == Target(abs, p) \notin exists /\ UNCHANGED gvars
Pushenv(v, x) ==
    /\ saved' = Append(saved, [var |-> v, old |-> env[v]])
    /\ env' = [env EXCEPT ![v] = <<x>>]
    /\ scopes' = Append(scopes, "env") /\ UNCHANGED <<exists, cwd, dirs>>
Leave ==
    /\ scopes # <<>> /\ scopes' = Front(scopes)
    /\ IF Last(scopes) = "dir"
       THEN dirs' = Front(dirs) /\ cwd' = Last(Front(dirs)) /\ UNCHANGED <<exists, env, saved>>
       ELSE saved' = Front(saved) /\ env' = [env EXCEPT ![Last(saved).var] = Last(saved).old]
            /\ UNCHANGED <<exists, cwd, dirs>>
\* A panic leaves scopes down to the `k` outermost ones, one by one.
RECURSIVE EnvDown(_, _, _)
EnvDown(e, sv, k) == IF Len(sv) = k THEN e ELSE EnvDown([e EXCEPT ![Last(sv).var] = Last(sv).old], Front(sv), k)
Count(s, x) == Cardinality({n \in 1..Len(s) : s[n] = x})
Unwind(k) ==
    /\ k <= Len(scopes)
    /\ LET left == SubSeq(scopes, 1, k) IN
       /\ scopes' = left
       /\ dirs' = SubSeq(dirs, 1, 1 + Count(left, "dir")) /\ cwd' = Last(dirs')
       /\ env' = EnvDown(env, saved, Count(left, "env")) /\ saved' = SubSeq(saved, 1, Count(left, "env"))
       /\ UNCHANGED exists

-----------------------------------------------------------------------------
(* Commands (bytes): words are separated by white space, a part in '...' is one word. *)
White == {9, 10, 12, 13, 32}
Quote == 39
RECURSIVE Words(_, _)
Words(t, cur) ==
    LET flush == IF cur = <<>> THEN <<>> ELSE <<cur>> IN
    IF t = <<>> THEN flush
    ELSE IF Head(t) \in White THEN flush \o Words(Tail(t), <<>>)
    ELSE Words(Tail(t), Append(cur, Head(t)))
RECURSIVE Parts(_, _)
Parts(t, cur) == IF t = <<>> THEN <<cur>>
                 ELSE IF Head(t) = Quote THEN <<cur>> \o Parts(Tail(t), <<>>)
                 ELSE Parts(Tail(t), Append(cur, Head(t)))
RECURSIVE Join(_, _)
Join(ps, quoted) == IF ps = <<>> THEN <<>>
                    ELSE (IF quoted THEN <<Head(ps)>> ELSE Words(Head(ps), <<>>)) \o Join(Tail(ps), ~quoted)
Command(t) == Join(Parts(t, <<>>), FALSE)

\* The same, one character at a time: what the specification is checked against.
RECURSIVE Scan(_, _, _, _)
Scan(t, words, cur, quoted) ==
    LET flush == IF cur = <<>> THEN words ELSE Append(words, cur) IN
    IF t = <<>> THEN (IF quoted THEN Append(words, cur) ELSE flush)
    ELSE IF Head(t) = Quote THEN Scan(Tail(t), IF quoted THEN Append(words, cur) ELSE flush, <<>>, ~quoted)
    ELSE IF Head(t) \in White /\ ~quoted THEN Scan(Tail(t), flush, <<>>, FALSE)
    ELSE Scan(Tail(t), words, Append(cur, Head(t)), quoted)

RECURSIVE TrimLeft(_)
TrimLeft(t) == IF t # <<>> /\ Head(t) \in White \cup {11} THEN TrimLeft(Tail(t)) ELSE t
RECURSIVE TrimRight(_)
TrimRight(t) == IF t # <<>> /\ Last(t) \in White \cup {11} THEN TrimRight(Front(t)) ELSE t
Trim(t) == TrimLeft(TrimRight(t))

-----------------------------------------------------------------------------
(* Files: path -> node; a node is a directory, a file with content, or a link whose  *)
(* target is elsewhere. Links are removed, never followed.                            *)
VARIABLE tree
Node(k, c) == [kind |-> k, content |-> c]
Paths == DOMAIN tree
IsDir(p) == p = <<>> \/ (p \in Paths /\ tree[p].kind = "dir")
IsFile(p) == p \in Paths /\ tree[p].kind = "file"
IsLink(p) == p \in Paths /\ tree[p].kind = "link"
Below(p) == {q \in Paths : IsPrefix(p, q)}
With(p, n) == (p :> n) @@ tree
Without(ps) == [q \in Paths \ ps |-> tree[q]]
Parents(p) == {SubSeq(p, 1, n) : n \in 1..Len(p)}

CanWrite(p) == IsDir(Front(p)) /\ ~IsDir(p)
Write(p, c) == IF CanWrite(p) THEN tree' = With(p, Node("file", c)) ELSE UNCHANGED tree
CanCopy(p, q) == IsFile(p) /\ CanWrite(q)
Copy(p, q) == IF CanCopy(p, q) THEN tree' = With(q, tree[p]) ELSE UNCHANGED tree
RemoveFile(p) == IF IsFile(p) THEN tree' = Without({p}) ELSE UNCHANGED tree
RemoveDir(p) == IF IsDir(p) THEN tree' = Without(Below(p)) ELSE UNCHANGED tree
CanMakeDirs(p) == \A q \in Parents(p) : q \in Paths => IsDir(q)
MakeDirs(p) == IF CanMakeDirs(p) THEN tree' = [q \in Parents(p) |-> Node("dir", <<>>)] @@ tree ELSE UNCHANGED tree
Link(p, target) == tree' = With(p, Node("link", target))
\* Whatever is there is gone; nothing there is fine as well.
RmRf(p) == tree' = Without(Below(p))
=============================================================================
