------------------------------- MODULE Ranges -------------------------------
(* Formatting of what is selected. A program is a list of statements; a statement has *)
(* lists of its own, which are between braces. Offsets are those of the text, with    *)
(* line feeds only. A statement is a record of                                        *)
(*   full   from the end of what is in front, and of the comment behind that, to its end *)
(*   trim   from its first to its last character                                      *)
(*   outer  the same, with the comments in front of it and the one behind it          *)
(*   skipped  whether a comment in front of it says that the file is skipped          *)
(*   lists  its lists                                                                 *)
(* and a list is one of `id` and `items`.                                             *)
EXTENDS Text

Holds(item, o, end) ==
    IF end THEN item.trim[1] <= o /\ o <= item.trim[2] ELSE item.full[1] <= o /\ o < item.full[2]
\* The lists, from the program's on, which have a statement at an offset.
RECURSIVE Path(_, _, _)
Path(list, o, end) ==
    LET at == {n \in 1..Len(list.items) : Holds(list.items[n], o, end)} IN
    IF at = {} THEN <<>>
    ELSE LET item == list.items[CHOOSE n \in at : TRUE]
             below == {Path(item.lists[m], o, end) : m \in 1..Len(item.lists)} \ {<<>>}
         IN <<list>> \o (IF below = {} THEN <<>> ELSE CHOOSE p \in below : TRUE)
\* The innermost list that has a statement at both ends of what is selected.
Innermost(program, a, b) ==
    LET p == Path(program, a, FALSE)
        q == Path(program, b, TRUE)
        shared == {n \in 1..Len(p) : n <= Len(q) /\ \A m \in 1..n : p[m].id = q[m].id}
    IN IF shared = {} THEN program ELSE p[CHOOSE n \in shared : \A m \in shared : m <= n]
\* The statements of a list that are selected, in part at least: a first and a last; none is <<1, 0>>.
Touched(list, a, b) ==
    LET first == {n \in 1..Len(list.items) : Holds(list.items[n], a, FALSE)}
        f == CHOOSE n \in first : TRUE
        more == {n \in 1..Len(list.items) : n >= f /\ list.items[n].trim[1] <= b}
    IN IF first = {} \/ more = {} THEN <<1, 0>> ELSE <<f, CHOOSE n \in more : \A m \in more : m <= n>>

\* A comment that skips the file does so at its top; anywhere else it skips what is selected below it.
Skipped(program, list, which) ==
    \/ program.items # <<>> /\ program.items[1].skipped
    \/ which # <<1, 0>> /\ list.items[which[1]].skipped

-----------------------------------------------------------------------------
Blank == {32, 9}
\* White space in front of an offset, in its line.
Indent(t, o) ==
    LET F[n \in 0..o] == IF n = 0 \/ t[n] \notin Blank THEN 0 ELSE F[n - 1] + 1 IN F[o]
\* Every line but the first is indented, unless it is empty.
Indented(t, by) ==
    LET F[n \in 0..Len(t)] ==
            IF n = 0 THEN <<>>
            ELSE IF t[n] = LF /\ n < Len(t) /\ t[n + 1] # LF THEN F[n - 1] \o <<LF>> \o by
            ELSE Append(F[n - 1], t[n])
    IN F[Len(t)]
Times(c, n) == [m \in 1..n |-> c]
\* Statements keep the indentation of the first of them, in whole levels.
Level(columns, spaces, width) == IF spaces THEN Times(32, (columns \div width) * width) ELSE Times(9, columns)
\* `new` is how the statements are formatted by themselves.
Reformatted(t, list, which, new, spaces, width) ==
    LET s == list.items[which[1]].outer[1]
        e == list.items[which[2]].outer[2]
        by == Level(Indent(t, list.items[which[1]].trim[1]), spaces, width)
    IN SubSeq(t, 1, s) \o Indented(SubSeq(new, 1, Len(new) - 1), by) \o SubSeq(t, e + 1, Len(t))
=============================================================================
