------------------------------- MODULE MC_Air -------------------------------
(* All small projects of a few shapes, and all runs on them.                         *)
EXTENDS Air
CONSTANT Deep
A == <<97>>  B == <<98>>  X == <<120, 46, 82>>  Z == <<122, 46, 116, 120, 116>>
Ln(t, e) == [h |-> <<>>, t |-> t, e |-> e]
Plain == [utf8 |-> TRUE, lines |-> <<Ln("x", "lf")>>]
Texts == {Plain, Format(Plain, Effective(NoConfig)), [utf8 |-> TRUE, lines |-> <<Ln("SYNTAX ERROR", "lf")>>]}
         \cup (IF Deep THEN {[utf8 |-> FALSE, lines |-> <<Ln("ff", "")>>], [utf8 |-> TRUE, lines |-> <<Ln("x", "crlf")>>]} ELSE {})
File(c) == [kind |-> "file", mode |-> "rw", text |-> c]
DirN == [kind |-> "dir", mode |-> "rw"]
Empty == [utf8 |-> TRUE, lines |-> <<>>]
Config(g) == [kind |-> "file", mode |-> "rw", text |-> Empty, cfg |-> g]
Configs1 == {<<>>, <<[ok |-> TRUE, ending |-> "crlf"]>>, <<[ok |-> TRUE, exclude |-> <<X>>]>>,
             <<[ok |-> TRUE, exclude |-> <<<<98, 47>>>>]>>, <<[ok |-> FALSE]>>}
Configs2 == {<<>>, <<[ok |-> TRUE, width |-> 100]>>} \cup (IF Deep THEN {<<[ok |-> TRUE, exclude |-> <<X>>]>>} ELSE {})
Ignores == {<<>>, <<[kind |-> "file", mode |-> "rw", text |-> Empty, ignore |-> <<<<98, 47>>>>]>>}
Opt(p, n) == IF n = <<>> THEN <<>> ELSE p :> n[1]
Trees == { (<<A>> :> DirN) @@ (<<A, B>> :> DirN) @@ (<<A, X>> :> File(t1)) @@ (<<A, B, X>> :> File(t2))
           @@ (<<A, Z>> :> File(Plain))
           @@ Opt(<<N_air>>, IF c1 = <<>> THEN <<>> ELSE <<Config(c1[1])>>)
           @@ Opt(<<A, B, N_dotair>>, IF c2 = <<>> THEN <<>> ELSE <<Config(c2[1])>>)
           @@ Opt(<<A, N_gitignore>>, g) @@ Opt(<<N_git>>, IF r THEN <<DirN>> ELSE <<>>) :
           t1 \in Texts, t2 \in Texts, c1 \in Configs1, c2 \in Configs2, g \in Ignores, r \in BOOLEAN }
Args == {<<<<A>>>>, <<<<A, B>>>>, <<<<A, X>>>>, <<<<A>>, <<A, B>>>>, <<<<A, Z>>, <<A, B, X>>>>, <<<<>>>>, <<<<A, Z, Z>>>>}
Runs == {[mode |-> m, force |-> f, args |-> a, stdin |-> FALSE, seen |-> {}] : m \in {"check", "write"}, f \in BOOLEAN, a \in Args}
MCInit == tree = <<>>
MCNext == IF tree = <<>> THEN tree' \in Trees ELSE \E r \in Runs : Run(r)
MCSpec == MCInit /\ [][MCNext]_tree

As(r, m) == [r EXCEPT !.mode = m]
\* Checking writes nothing, and says just what writing would do.
CheckPredicts == \A r \in {x \in Runs : x.mode = "check"} :
    LET c == Paths(tree, r) w == Paths(tree, As(r, "write")) IN
    /\ c.tree = tree
    /\ c.hard = w.hard /\ c.errors = w.errors
    /\ ~c.hard => c.listed = {p \in DOMAIN tree : w.tree[p] # tree[p]}
    /\ (c.exit = 0) <=> (w.exit = 0 /\ w.tree = tree)
\* What was formatted is formatted.
Settles == \A r \in {x \in Runs : x.mode = "write"} :
    LET w == Paths(tree, r) again == Paths(w.tree, r) IN
    /\ again.tree = w.tree /\ again.exit = w.exit /\ again.errors = w.errors
    /\ Paths(w.tree, As(r, "check")).listed = {}
\* What was asked for in whatever order.
Reverse2(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == \A r \in Runs : Paths(tree, r) = Paths(tree, [r EXCEPT !.args = Reverse2(r.args)])
\* Nothing but R files, and nothing excluded, changes unless forced; configurations and the like never do.
Spares == \A r \in {x \in Runs : x.mode = "write"} :
    LET w == Paths(tree, r) new == {p \in DOMAIN tree : w.tree[p] # tree[p]} IN
    /\ DOMAIN w.tree = DOMAIN tree
    /\ ~r.force => \A p \in new : Base(p) = X /\ ~ExcludedWithParents(Governing(tree, r.args, p), p, FALSE)
    /\ \A p \in new : \E i \in 1..Len(r.args) : IsPrefix2(r.args[i], p)
    /\ \A p \in new : tree[p].text.utf8 /\ ~Broken(tree[p].text)
\* A text from stdin is treated as the file of that name would be.
StdinAgrees == \A p \in {q \in DOMAIN tree : tree[q].kind = "file"}, f \in BOOLEAN :
    LET r == [mode |-> "write", force |-> f, args |-> <<p>>, stdin |-> FALSE, seen |-> {}]
        w == Paths(tree, r) s == Stdin(tree, r @@ [text |-> tree[p].text])
        k == Stdin(tree, As(r, "check") @@ [text |-> tree[p].text])
    IN /\ w.hard = s.hard
       /\ w.exit = 0 => /\ (s.exit = 0 \/ ~tree[p].text.utf8)
                        /\ s.exit = 0 => s.out = w.tree[p].text
       /\ k.exit = Paths(tree, As(r, "check")).exit
\* An extra argument never changes what happens to the files of another, unless it brings in a configuration.
Independent == \A r \in Runs : Len(r.args) = 2 =>
    LET one == [r EXCEPT !.args = <<r.args[1]>>] IN
    Discovered(tree, r.args) = Discovered(tree, one.args) =>
        \/ Paths(tree, r).hard
        \/ LET w == Paths(tree, r) v == Paths(tree, one) IN v.listed \subseteq w.listed /\ v.errors \subseteq w.errors
=============================================================================
