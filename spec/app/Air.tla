-------------------------------- MODULE Air --------------------------------
(* `air format`: which files it looks at, which configuration governs each of them,  *)
(* what it writes, reports and exits with.                                           *)
(*                                                                                   *)
(* A name is a sequence of bytes, a path a sequence of names below the directory that *)
(* everything happens in. The formatter itself is a parameter: of a text it is only  *)
(* known that its result depends on the text and the options (`Format`).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT Known      \* deviations of the code that are known and accounted for: see known_findings.json
P == INSTANCE Patterns WITH lines <- <<>>, dir <- <<>>

Rng(s) == {s[i] : i \in 1..Len(s)}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Base(p) == p[Len(p)]
IsPrefix2(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(root, p) == SubSeq(p, Len(root) + 1, Len(p))
Has(r, f) == f \in DOMAIN r
Get(r, f, default) == IF Has(r, f) THEN r[f] ELSE default

N_air == <<97, 105, 114, 46, 116, 111, 109, 108>>               \* air.toml
N_dotair == <<46>> \o N_air                                     \* .air.toml
N_git == <<46, 103, 105, 116>>                                  \* .git
N_gitignore == <<46, 103, 105, 116, 105, 103, 110, 111, 114, 101>>  \* .gitignore
N_info == <<105, 110, 102, 111>>
N_exclude == <<101, 120, 99, 108, 117, 100, 101>>
Dot == 46

-----------------------------------------------------------------------------
(* A text is [utf8, lines]; a line is [h, t, e]: the options it names when it is a   *)
(* header (<<>> when not), its text and how it ends ("lf", "crlf", "").             *)
Broken(c) == \E i \in 1..Len(c.lines) : c.lines[i].t = "SYNTAX ERROR"
IsHeader(l) == l.h # <<>>

FirstEnding(c) ==
    LET es == {i \in 1..Len(c.lines) : c.lines[i].e # ""} IN
    IF es = {} THEN "lf" ELSE c.lines[CHOOSE i \in es : \A j \in es : i <= j].e
Ending(c, cfg) == CASE cfg.ending = "auto" -> FirstEnding(c)
                    [] cfg.ending = "crlf" -> "crlf"
                    [] OTHER -> "lf"                        \* lf, and native on Unix

Body(c) == IF c.lines # <<>> /\ IsHeader(c.lines[1]) THEN Tail(c.lines) ELSE c.lines
Format(c, cfg) ==
    LET e == Ending(c, cfg) b == Body(c) IN
    [utf8 |-> TRUE,
     lines |-> <<[h |-> <<cfg.options>>, t |-> "", e |-> e]>> \o [i \in 1..Len(b) |-> [b[i] EXCEPT !.e = e]]]

-----------------------------------------------------------------------------
(* Configurations: what a file says (fields may be absent) and what holds then.      *)
DefaultTable == {3, 5}                                          \* fcase, tribble
Sorted(S) == SetToSortSeq(S, <)
Names(ns) == <<Sorted(Rng(ns))>>
Valid(g) ==
    /\ g.ok
    /\ Get(g, "width", 80) \in 1..320
    /\ Get(g, "indent", 2) \in 1..24
    /\ Get(g, "style", "space") \in {"space", "tab"}
    /\ Get(g, "ending", "auto") \in {"auto", "lf", "crlf", "native"}
    /\ Get(g, "assign", "arrow") \in {"arrow", "equal", "preserve"}
Effective(g) ==
    [ending |-> Get(g, "ending", "auto"),
     exclude |-> Get(g, "exclude", <<>>),
     defaults |-> Get(g, "defexclude", TRUE),
     options |->
        [width |-> Get(g, "width", 80),
         indent |-> Get(g, "indent", 2),
         tab |-> Get(g, "style", "space") = "tab",
         respect |-> Get(g, "persist", TRUE),
         assign |-> Get(g, "assign", "arrow"),
         skip |-> IF Has(g, "skip") THEN Names(g.skip) ELSE <<>>,
         table |-> IF Get(g, "deftable", TRUE)
                   THEN <<Sorted(Rng(Get(g, "table", <<>>)) \cup DefaultTable)>>
                   ELSE IF Has(g, "table") THEN Names(g.table) ELSE <<>>]]
NoConfig == [ok |-> TRUE]

-----------------------------------------------------------------------------
(* The tree: path -> [kind, mode, ...] for everything in it.                         *)
\* Nothing is known of what is below a directory that cannot be entered.
Reach(t, p) == \A k \in 1..(Len(p) - 1) : SubSeq(p, 1, k) \in DOMAIN t => t[SubSeq(p, 1, k)].mode # "none"
IsDir(t, p) == p = <<>> \/ (p \in DOMAIN t /\ t[p].kind = "dir" /\ Reach(t, p))
IsFile(t, p) == p \in DOMAIN t /\ t[p].kind = "file" /\ Reach(t, p)
Exists(t, p) == p = <<>> \/ (p \in DOMAIN t /\ (t[p].kind = "link" => t[p].to \in DOMAIN t) /\ Reach(t, p))

\* The configuration file of a directory, the visible one first.
ConfigIn(t, d) ==
    IF IsFile(t, Append(d, N_air)) THEN <<Append(d, N_air)>>
    ELSE IF IsFile(t, Append(d, N_dotair)) THEN <<Append(d, N_dotair)>>
    ELSE <<>>
\* The closest directory from a path upwards that has one.
RECURSIVE Nearest(_, _)
Nearest(t, p) ==
    IF ConfigIn(t, p) # <<>> THEN {p} ELSE IF p = <<>> THEN {} ELSE Nearest(t, Parent(p))
\* Configurations are looked for from what was asked for, upwards; never further down.
Discovered(t, args) == UNION {Nearest(t, args[i]) : i \in 1..Len(args)}
ConfigOf(t, d) == t[ConfigIn(t, d)[1]].cfg
ConfigsValid(t, args) ==
    \A d \in Discovered(t, args) : t[ConfigIn(t, d)[1]].mode # "none" /\ Valid(ConfigOf(t, d))

\* What governs a path: the closest of the discovered ones.
Governing(t, args, p) ==
    LET ds == {d \in Discovered(t, args) : IsPrefix2(d, p)} IN
    IF ds = {} THEN [root |-> <<>>, cfg |-> Effective(NoConfig)]
    ELSE LET d == CHOOSE d \in ds : \A x \in ds : Len(x) <= Len(d) IN [root |-> d, cfg |-> Effective(ConfigOf(t, d))]

-----------------------------------------------------------------------------
(* Selection *)
ExcludedAlone(g, p, isdir) ==
    \/ P!Matched(g.cfg.exclude, Below(g.root, p), isdir)
    \/ g.cfg.defaults /\ P!Matched(P!DefaultExclude, p, isdir)
ExcludedWithParents(g, p, isdir) ==
    \/ P!Climb(g.cfg.exclude, Below(g.root, p), isdir)
    \/ g.cfg.defaults /\ P!Climb(P!DefaultExclude, p, isdir)
Included(p) == P!Matched(P!DefaultInclude, p, FALSE)

\* git: from the directory of the path up to the one that has a .git, the closest .gitignore that decides; then the
\* repository's own list.
InRepo(t, d) == \E k \in 0..Len(d) : Exists(t, Append(SubSeq(d, 1, k), N_git))
RECURSIVE Git(_, _, _, _, _, _)
Git(t, file, d, at, p, isdir) ==
    LET f == d \o file
        q == p[Len(d) < at]
        v == IF IsFile(t, f) THEN P!Verdict(t[f].ignore, Below(d, q), isdir) ELSE "none"
    IN IF v # "none" THEN v
       ELSE IF d = <<>> \/ Exists(t, Append(d, N_git)) THEN "none"
       ELSE Git(t, file, Parent(d), at, p, isdir)
\* What the files at depth `at` and below say of a path, and what those above say of it. (The same path: see `Verdicts`.)
GitVerdict(t, at, p, above, isdir) ==
    LET names == [up \in BOOLEAN |-> IF up THEN above ELSE p]
        v == Git(t, <<N_gitignore>>, Parent(p), at, names, isdir)
    IN IF ~InRepo(t, Parent(p)) THEN "none"
       ELSE IF v # "none" THEN v
       ELSE Git(t, <<N_git, N_info, N_exclude>>, Parent(p), at, names, isdir)
\* Known deviation (of a library): what is above the directory that was asked for takes a path below it for one of
\* its immediate entries; and with several directories, for one of any of those.
Verdicts(t, run, root, p, isdir) ==
    IF "parents" \notin Known THEN {GitVerdict(t, Len(root), p, p, isdir)}
    ELSE {GitVerdict(t, Len(root), p, Append(run.args[k], Base(p)), isdir) : k \in 1..Len(run.args)}
\* Found while searching: not hidden, not ignored.
Visible(t, run, root, p, isdir) ==
    LET S == {v = "keep" \/ (v = "none" /\ Base(p)[1] # Dot) : v \in Verdicts(t, run, root, p, isdir)} IN
    IF Cardinality(S) = 1 THEN TRUE \in S
    \* Either: as it was seen to be.
    ELSE IF isdir /\ t[p].mode = "none" THEN <<>> \in run.seen
    ELSE \E q \in run.seen : IsPrefix2(p, q)

Children(t, d) == {p \in DOMAIN t : Len(p) = Len(d) + 1 /\ IsPrefix2(d, p)}
NoFind == [files |-> {}, errors |-> {}]
Join(S) == [files |-> UNION {x.files : x \in S}, errors |-> UNION {x.errors : x \in S}]
One(t, p, force) == IF force \/ Included(p) THEN [files |-> {p}, errors |-> {}] ELSE NoFind
\* A directory that cannot be listed is not named.
Unlisted == [files |-> {}, errors |-> {[path |-> <<>>, kind |-> "search"]}]
RECURSIVE Search(_, _, _, _)
\* Everything below a directory that is searched
Search(t, run, root, d) ==
    IF d # <<>> /\ t[d].mode = "none" THEN Unlisted
    ELSE Join({ LET isdir == IsDir(t, p) IN
                IF ~Visible(t, run, root, p, isdir) \/ (~run.force /\ ExcludedAlone(Governing(t, run.args, p), p, isdir))
                THEN NoFind
                ELSE IF isdir THEN Search(t, run, root, p)
                ELSE One(t, p, run.force) : p \in Children(t, d) })
Asked(t, run, p) ==
    IF ~Exists(t, p) THEN [files |-> {}, errors |-> {[path |-> p, kind |-> "search"]}]
    ELSE IF ~run.force /\ ExcludedWithParents(Governing(t, run.args, p), p, IsDir(t, p)) THEN NoFind
    ELSE IF IsDir(t, p) THEN Search(t, run, p, p)
    ELSE One(t, p, run.force)
Select(t, run) == Join({Asked(t, run, run.args[i]) : i \in 1..Len(run.args)})

-----------------------------------------------------------------------------
(* A file: through a link to where it leads.                                         *)
Target(t, p) == IF t[p].kind = "link" THEN t[p].to ELSE p
\* [kind, text]: what comes of it
Result(t, args, p) ==
    LET q == Target(t, p) IN
    IF ~IsFile(t, q) \/ t[q].mode = "none" THEN [kind |-> "read"]
    ELSE LET c == t[q].text IN
         IF ~c.utf8 THEN [kind |-> "read"]
         ELSE IF Broken(c) THEN [kind |-> "syntax"]
         ELSE LET new == Format(c, Governing(t, args, p).cfg) IN
              IF new = c THEN [kind |-> "same"]
              ELSE [kind |-> "changed", text |-> new, writable |-> t[q].mode = "rw"]

Exit == [success |-> 0, failure |-> 1, error |-> 255]
Hard(t) == [exit |-> Exit.error, hard |-> TRUE, listed |-> {}, errors |-> {}, tree |-> t]

Check(t, run) ==
    LET args == run.args
        s == Select(t, run)
        es == s.errors \cup {[path |-> p, kind |-> Result(t, args, p).kind] :
                              p \in {x \in s.files : Result(t, args, x).kind \in {"read", "syntax"}}}
        cs == {p \in s.files : Result(t, args, p).kind = "changed"}
    IN [exit |-> IF es # {} THEN Exit.error ELSE IF cs # {} THEN Exit.failure ELSE Exit.success,
        hard |-> FALSE, listed |-> cs, errors |-> es, tree |-> t]

\* One file after the other, in any order.
RECURSIVE WriteAll(_, _, _, _)
WriteAll(t, args, todo, es) ==
    IF todo = {} THEN [tree |-> t, errors |-> es]
    ELSE LET p == CHOOSE x \in todo : TRUE
             r == Result(t, args, p)
         IN CASE r.kind \in {"read", "syntax"} ->
                   WriteAll(t, args, todo \ {p}, es \cup {[path |-> p, kind |-> r.kind]})
              [] r.kind = "same" -> WriteAll(t, args, todo \ {p}, es)
              [] r.kind = "changed" ->
                   IF r.writable THEN WriteAll([t EXCEPT ![Target(t, p)].text = r.text], args, todo \ {p}, es)
                   ELSE WriteAll(t, args, todo \ {p}, es \cup {[path |-> p, kind |-> "write"]})
Write(t, run) ==
    LET args == run.args s == Select(t, run) w == WriteAll(t, args, s.files, s.errors) IN
    [exit |-> IF w.errors # {} THEN Exit.error ELSE Exit.success,
     hard |-> FALSE, listed |-> {}, errors |-> w.errors, tree |-> w.tree]

\* [mode, force, args] on a tree
Paths(t, run) ==
    IF ~ConfigsValid(t, run.args) THEN Hard(t)
    ELSE IF run.mode = "check" THEN Check(t, run) ELSE Write(t, run)

-----------------------------------------------------------------------------
(* From stdin to stdout: as a file of that path would be, whether or not it is there. *)
Silent == [utf8 |-> TRUE, lines |-> <<>>]
Stdin(t, run) ==
    LET p == run.args[1]
        g == Governing(t, run.args, p)
        taken == run.force \/ (~ExcludedWithParents(g, p, FALSE) /\ Included(p))
        Fail == [exit |-> Exit.error, hard |-> FALSE, out |-> Silent]
        Say(x, o) == [exit |-> x, hard |-> FALSE, out |-> o]
        new == Format(run.text, g.cfg)
    IN IF ~ConfigsValid(t, run.args) THEN [exit |-> Exit.error, hard |-> TRUE, out |-> Silent]
       ELSE IF run.mode = "check"
       THEN IF ~taken THEN Say(Exit.success, Silent)
            ELSE IF ~run.text.utf8 \/ Broken(run.text) THEN Fail
            ELSE IF new = run.text THEN Say(Exit.success, Silent) ELSE Say(Exit.failure, Silent)
       ELSE IF ~run.text.utf8 THEN Fail
       ELSE IF ~taken THEN Say(Exit.success, run.text)
       ELSE IF Broken(run.text) THEN Fail
       ELSE Say(Exit.success, new)

-----------------------------------------------------------------------------
(* A project over time: runs of air, and edits in between.                           *)
VARIABLE tree
Run(run) == tree' = IF run.stdin THEN tree ELSE Paths(tree, run).tree
Edit(p, node) == tree' = [q \in DOMAIN tree \cup {p} |-> IF q = p THEN node ELSE tree[q]]
Delete(p) == tree' = [q \in DOMAIN tree \ {p} |-> tree[q]]
=============================================================================
