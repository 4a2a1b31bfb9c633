-------------------------------- MODULE Paths --------------------------------
(* Paths given on the command line: made absolute, shown relative, and recognised   *)
(* as R files.                                                                      *)
(*                                                                                  *)
(* A path is [abs, comps]: components are names, or `.` (DOT) or `..` (UP). Names    *)
(* are sequences of code units (bytes).                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
DOT == <<46>>
UP == <<46, 46>>
Front(s) == SubSeq(s, 1, Len(s) - 1)
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* Resolves a path against a directory, a component at a time: the state machine
\* `stack` is the directory reached so far.
VARIABLES stack, todo
Walk(c) ==
    stack' = IF c = DOT THEN stack
             ELSE IF c = UP THEN (IF stack = <<>> THEN <<>> ELSE Front(stack))
             ELSE Append(stack, c)

RECURSIVE Fold(_, _)
Fold(st, cs) ==
    IF cs = <<>> THEN st
    ELSE Fold(IF Head(cs) = DOT THEN st
              ELSE IF Head(cs) = UP THEN (IF st = <<>> THEN <<>> ELSE Front(st))
              ELSE Append(st, Head(cs)), Tail(cs))
Normalize(cwd, p) == Fold(IF p.abs THEN <<>> ELSE cwd, p.comps)

\* An absolute path without dots, as shown to the user: relative when below the
\* working directory, in full otherwise.
Relativize(cwd, comps) ==
    IF IsPrefix(cwd, comps) THEN [abs |-> FALSE, comps |-> SubSeq(comps, Len(cwd) + 1, Len(comps))]
    ELSE [abs |-> TRUE, comps |-> comps]

-----------------------------------------------------------------------------
\* `r` or `R` after the last dot of the file name, which has something in front of that dot.
Dots(n) == {i \in 1..Len(n) : n[i] = 46}
LastDot(n) == CHOOSE i \in Dots(n) : \A j \in Dots(n) : j <= i
HasR(n) ==
    /\ n # UP /\ Dots(n) # {}
    /\ LastDot(n) > 1
    /\ SubSeq(n, LastDot(n) + 1, Len(n)) \in {<<82>>, <<114>>}
\* A path's file name is its last component, unless that is `..`; `.` at the end does not count.
RECURSIVE Last(_)
Last(cs) == IF cs = <<>> THEN <<>> ELSE IF cs[Len(cs)] = DOT THEN Last(Front(cs)) ELSE cs[Len(cs)]
HasRExtension(p) == LET n == Last(p.comps) IN n # <<>> /\ n # UP /\ HasR(n)
=============================================================================
