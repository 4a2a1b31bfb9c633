------------------------------ MODULE Patterns ------------------------------
(* Which files are excluded from formatting: patterns in the style of .gitignore,    *)
(* relative to the directory of the configuration file, and the built-in ones.       *)
(*                                                                                   *)
(* Texts are sequences of bytes (as for git, `?` is one byte), paths sequences of names. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Star == 42
Quest == 63
Slash == 47
Bang == 33
Sharp == 35
Open == 91
Close == 93
White == {9, 10, 13, 32}
DStar == <<Star, Star>>
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Has(s, c) == \E i \in 1..Len(s) : s[i] = c

-----------------------------------------------------------------------------
(* A name against a component of a pattern. `[xyz]` is one of its members.           *)
RECURSIVE ClassEnd(_, _)
ClassEnd(p, i) == IF p[i] = Close THEN i ELSE ClassEnd(p, i + 1)
RECURSIVE NameMatch(_, _)
NameMatch(p, n) ==
    IF p = <<>> THEN n = <<>>
    ELSE IF p[1] = Star THEN NameMatch(Tail(p), n) \/ (n # <<>> /\ NameMatch(p, Tail(n)))
    ELSE IF n = <<>> THEN FALSE
    ELSE IF p[1] = Quest THEN NameMatch(Tail(p), Tail(n))
    ELSE IF p[1] = Open
    THEN LET k == ClassEnd(p, 2) IN Has(SubSeq(p, 2, k - 1), n[1]) /\ NameMatch(SubSeq(p, k + 1, Len(p)), Tail(n))
    ELSE p[1] = n[1] /\ NameMatch(Tail(p), Tail(n))

\* `**` stands for any number of directories; at the end for anything below.
RECURSIVE PathMatch(_, _)
PathMatch(ps, ns) ==
    IF ps = <<>> THEN ns = <<>>
    ELSE IF ps[1] = DStar
    THEN IF Len(ps) = 1 THEN ns # <<>>
         ELSE PathMatch(Tail(ps), ns) \/ (ns # <<>> /\ PathMatch(ps, Tail(ns)))
    ELSE ns # <<>> /\ NameMatch(ps[1], ns[1]) /\ PathMatch(Tail(ps), Tail(ns))

-----------------------------------------------------------------------------
(* A line: comment, negation, anchor, directories only.                              *)
RECURSIVE Split(_, _)
Split(t, cur) ==
    IF t = <<>> THEN <<cur>>
    ELSE IF t[1] = Slash THEN <<cur>> \o Split(Tail(t), <<>>)
    ELSE Split(Tail(t), Append(cur, t[1]))
RECURSIVE Trim(_)
Trim(t) == IF t # <<>> /\ Last(t) \in White THEN Trim(Front(t)) ELSE t

Line(raw) ==
    LET t == Trim(raw) IN
    IF t = <<>> \/ raw[1] = Sharp THEN [rule |-> FALSE]
    ELSE LET white == t[1] = Bang
             t1 == IF white THEN Tail(t) ELSE t
             anchor == t1 # <<>> /\ t1[1] = Slash
             t2 == IF anchor THEN Tail(t1) ELSE t1
             dirs == t2 # <<>> /\ Last(t2) = Slash
             t3 == IF dirs THEN Front(t2) ELSE t2
         IN [rule |-> TRUE, white |-> white, dirs |-> dirs,
             comps |-> (IF anchor \/ Has(t3, Slash) THEN <<>> ELSE <<DStar>>) \o Split(t3, <<>>)]

\* What a list of lines says about a path below the root: the last line that matches decides.
RECURSIVE Verdict(_, _, _)
Verdict(lines, ns, isdir) ==
    IF lines = <<>> \/ ns = <<>> THEN "none"
    ELSE LET l == Line(Last(lines)) IN
         IF l.rule /\ (l.dirs => isdir) /\ PathMatch(l.comps, ns)
         THEN (IF l.white THEN "keep" ELSE "drop")
         ELSE Verdict(Front(lines), ns, isdir)
Matched(lines, ns, isdir) == Verdict(lines, ns, isdir) = "drop"

\* The same for a path that is asked for by itself: the closest of it and its parents that is decided.
RECURSIVE Climb(_, _, _)
Climb(lines, ns, isdir) ==
    IF ns = <<>> THEN FALSE
    ELSE LET v == Verdict(lines, ns, isdir) IN
         IF v = "none" THEN Climb(lines, Front(ns), TRUE) ELSE v = "drop"

-----------------------------------------------------------------------------
(* The built-in patterns.                                                            *)
DefaultExclude == <<
    <<42, 42, 47, 46, 103, 105, 116, 47>>,                                         \* **/.git/
    <<42, 42, 47, 114, 101, 110, 118, 47>>,                                        \* **/renv/
    <<42, 42, 47, 114, 101, 118, 100, 101, 112, 47>>,                              \* **/revdep/
    <<42, 42, 47, 99, 112, 112, 49, 49, 46, 82>>,                                  \* **/cpp11.R
    <<42, 42, 47, 82, 99, 112, 112, 69, 120, 112, 111, 114, 116, 115, 46, 82>>,    \* **/RcppExports.R
    <<42, 42, 47, 101, 120, 116, 101, 110, 100, 114, 45, 119, 114, 97, 112, 112, 101, 114, 115, 46, 82>>,  \* **/extendr-wrappers.R
    <<42, 42, 47, 105, 109, 112, 111, 114, 116, 45, 115, 116, 97, 110, 100, 97, 108, 111, 110, 101, 45, 42, 46, 82>>  \* **/import-standalone-*.R
>>
DefaultInclude == <<<<42, 42, 47, 42, 46, 91, 82, 114, 93>>>>                      \* **/*.[Rr]

\* An R file is kept or not; nothing else is ever formatted.
Formatted(lines, ns) ==
    /\ ~Climb(lines, ns, FALSE) /\ ~Climb(DefaultExclude, ns, FALSE)
    /\ Matched(DefaultInclude, ns, FALSE)

-----------------------------------------------------------------------------
(* Discovery walks down from the root: `dir` is a directory that was entered.        *)
VARIABLES lines, dir
pvars == <<lines, dir>>
Enter(n) == ~Matched(lines, Append(dir, n), TRUE) /\ dir' = Append(dir, n) /\ UNCHANGED lines
=============================================================================
