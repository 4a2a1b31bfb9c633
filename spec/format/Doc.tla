-------------------------------- MODULE Doc --------------------------------
(* The documents that the formatter builds and the printer that lays them out.  *)
(* A document says where lines may or must end; the printer decides, group by   *)
(* group, from the left, whether what follows fits on the current line.         *)
(*                                                                              *)
(* Every document carries b, whether it expands the groups around it, and wb,   *)
(* whether some line end in it is certain.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Tabs(s) == Cardinality({i \in 1..Len(s) : SubSeq(s, i, i) = "\t"})
Text(s) == [t |-> "text", s |-> s, n |-> Len(s), tabs |-> 0, b |-> FALSE, wb |-> FALSE]
(* a text with tabs, which are as wide as the indentation *)
Tabbed(s) == [Text(s) EXCEPT !.tabs = Tabs(s)]
Wide(s, o) == Len(s) + Tabs(s) * (o.indent - 1)
(* a text of several lines, such as a string *)
Lines(ls) == [t |-> "lines", ls |-> ls, b |-> TRUE, wb |-> TRUE]
Space == [t |-> "space", b |-> FALSE, wb |-> FALSE]
Nothing == [t |-> "cat", c |-> <<>>, b |-> FALSE, wb |-> FALSE]
Line(k) == [t |-> "line", k |-> k, b |-> k \in {"hard", "empty"}, wb |-> k \in {"hard", "empty"}]
Soft == Line("soft")
SoftOrSpace == Line("space")
Hard == Line("hard")
Empty == Line("empty")
Expand == [t |-> "expand", b |-> TRUE, wb |-> TRUE]
Cat(ds) == [t |-> "cat", c |-> ds, b |-> \E i \in DOMAIN ds : ds[i].b, wb |-> \E i \in DOMAIN ds : ds[i].wb]
Indent(d) == [t |-> "indent", d |-> d, b |-> d.b, wb |-> d.wb]
Group(d, x) == [t |-> "group", d |-> d, b |-> x \/ d.b, wb |-> x \/ d.wb, x |-> x]
IfBreaks(d) == [t |-> "ifbreaks", d |-> d, b |-> d.b, wb |-> d.wb]
(* the first of the documents that fits; the last when none does *)
Best(ds) == [t |-> "best", c |-> ds, b |-> FALSE, wb |-> ds[1].wb]
(* The sequence of G(1) … G(n), computed once: TLC recomputes the elements of a     *)
(* function each time that it is applied, but not those of a sequence.              *)
Each(n, G(_)) == <<>> \o [i \in 1..n |-> G(i)]
(* what comes at the end of the line, whatever else is still printed on it *)
Suffix(d) == [t |-> "suffix", d |-> d, b |-> FALSE, wb |-> FALSE]

BlockIndent(d) == Cat(<<Indent(Cat(<<Hard, d>>)), Hard>>)
SoftBlockIndent(d) == Cat(<<Indent(Cat(<<Soft, d>>)), Soft>>)
SpaceOrBlockIndent(d) == Cat(<<Indent(Cat(<<SoftOrSpace, d>>)), SoftOrSpace>>)


(* the documents with the separators sep[2], sep[3], … before the second, third, … *)
Join(ds, sep) ==
    Cat(FlattenSeq(Each(Len(ds), LAMBDA i : IF i = 1 THEN <<ds[1]>> ELSE <<sep[i], ds[i]>>)))

RECURSIVE Flatten(_)
(* The document without its optional line ends: how the parameters of a function *)
(* are laid out when the function is the last argument of a call.                *)
Flatten(d) ==
    CASE d.t = "line" -> IF d.k = "soft" THEN Nothing ELSE IF d.k = "space" THEN Space ELSE d
      [] d.t = "cat" -> Cat(Each(Len(d.c), LAMBDA i : Flatten(d.c[i])))
      [] d.t = "indent" -> Indent(Flatten(d.d))
      \* a group that had to expand still does
      [] d.t = "group" -> Group(Flatten(d.d), d.x)
      [] d.t = "ifbreaks" -> Nothing
      [] d.t = "best" -> Flatten(d.c[1])
      [] OTHER -> d

-----------------------------------------------------------------------------
(* The printer.  A stack of documents still to print, each with its indentation *)
(* and whether it is laid out flat or expanded, as nested pairs.                *)
Frame(d, i, m) == [d |-> d, i |-> i, m |-> m]
RECURSIVE PushAll(_, _, _, _, _)
PushAll(ds, k, i, m, rest) == IF k = 0 THEN rest ELSE PushAll(ds, k - 1, i, m, <<Frame(ds[k], i, m), rest>>)

RECURSIVE Fits(_, _, _, _, _, _)
(* Does what is on the stack fit on the current line, up to the first line end? *)
(* w: columns used, pi: indentation still to write, ps: a space still to write. *)
Fits(st, w, pi, ps, width, unit) ==
    IF st = <<>> THEN TRUE
    ELSE LET f == st[1] d == f.d rest == st[2] IN
        CASE d.t = "text" ->
                LET v == w + pi * unit + (IF ps THEN 1 ELSE 0) + d.n + d.tabs * (unit - 1) IN
                IF v > width THEN FALSE ELSE Fits(rest, v, 0, FALSE, width, unit)
          [] d.t = "lines" -> TRUE
          [] d.t = "space" -> Fits(rest, w, pi, ps \/ w > 0, width, unit)
          [] d.t = "line" ->
                IF f.m = "E" \/ d.k \in {"hard", "empty"} THEN TRUE
                ELSE Fits(rest, w, pi, ps \/ d.k = "space", width, unit)
          [] d.t = "cat" -> Fits(PushAll(d.c, Len(d.c), f.i, f.m, rest), w, pi, ps, width, unit)
          [] d.t = "indent" -> Fits(<<Frame(d.d, f.i + 1, f.m), rest>>, w, pi, ps, width, unit)
          [] d.t = "group" -> Fits(<<Frame(d.d, f.i, IF d.b THEN "E" ELSE f.m), rest>>, w, pi, ps, width, unit)
          [] d.t = "ifbreaks" -> Fits(IF f.m = "E" THEN <<Frame(d.d, f.i, f.m), rest>> ELSE rest, w, pi, ps, width, unit)
          [] d.t = "best" -> Fits(<<Frame(d.c[IF f.m = "F" THEN 1 ELSE Len(d.c)], f.i, f.m), rest>>, w, pi, ps, width, unit)
          [] OTHER -> Fits(rest, w, pi, ps, width, unit)

Times(s, n) == FoldLeft(LAMBDA a, k : a \o s, "", [k \in 1..n |-> k])

RECURSIVE Best1(_, _, _, _, _, _)
Best1(d, k, f, rest, p, o) ==
    IF k = Len(d.c) THEN Frame(d.c[k], f.i, "E")
    ELSE IF Fits(<<Frame(d.c[k], f.i, "F"), rest>>, p.w, p.pi, p.ps, o.width, o.indent) THEN Frame(d.c[k], f.i, "F")
    ELSE Best1(d, k + 1, f, rest, p, o)

(* p: the printer.  st stack, done the finished lines, ln the current line, w its *)
(* width, pi and ps what to write before the next text, m whether the current    *)
(* line was measured already, he whether the last line written is an empty one,  *)
(* suf what goes to the end of the line.                                         *)
Write(p, s, n, o) ==
    LET ind == IF p.pi = 0 THEN "" ELSE IF o.tab THEN Times("\t", p.pi) ELSE Times(" ", p.pi * o.indent) IN
    [p EXCEPT !.ln = @ \o ind \o (IF p.ps THEN " " ELSE "") \o s,
              !.w = @ + p.pi * o.indent + (IF p.ps THEN 1 ELSE 0) + n,
              !.pi = 0, !.ps = FALSE,
              !.he = IF n > 0 THEN FALSE ELSE @]
EndLine(p) == [p EXCEPT !.done = Append(@, p.ln), !.ln = "", !.w = 0, !.m = FALSE]

Step(p, o) ==
    LET f == p.st[1] d == f.d rest == p.st[2] q == [p EXCEPT !.st = rest] IN
    CASE d.t = "text" -> Write(q, d.s, d.n + d.tabs * (o.indent - 1), o)
      [] d.t = "lines" ->
            LET first == Write(q, d.ls[1], Wide(d.ls[1], o), o)
                all == FoldLeft(LAMBDA a, k : LET e == EndLine(a) IN [e EXCEPT !.ln = d.ls[k], !.w = Wide(d.ls[k], o)],
                                first, [k \in 1..(Len(d.ls) - 1) |-> k + 1])
            IN [all EXCEPT !.he = FALSE]
      [] d.t = "space" -> [q EXCEPT !.ps = @ \/ p.w > 0]
      [] d.t = "line" ->
            IF f.m = "F" /\ d.k \in {"soft", "space"} THEN [q EXCEPT !.ps = @ \/ (d.k = "space" /\ p.w > 0)]
            ELSE IF p.suf # <<>> THEN
                [p EXCEPT !.st = FoldRight(LAMBDA g, acc : <<g, acc>>, p.suf, p.st), !.suf = <<>>]
            ELSE LET a == IF p.w > 0 THEN EndLine(q) ELSE q
                     e == IF d.k = "empty" /\ ~a.he THEN [EndLine(a) EXCEPT !.he = TRUE] ELSE a
                 IN [e EXCEPT !.ps = FALSE, !.pi = f.i, !.m = FALSE]
      [] d.t = "cat" -> [p EXCEPT !.st = PushAll(d.c, Len(d.c), f.i, f.m, rest)]
      [] d.t = "indent" -> [p EXCEPT !.st = <<Frame(d.d, f.i + 1, f.m), rest>>]
      [] d.t = "group" ->
            IF d.b THEN [p EXCEPT !.st = <<Frame(d.d, f.i, "E"), rest>>]
            ELSE IF f.m = "F" /\ p.m THEN [p EXCEPT !.st = <<Frame(d.d, f.i, "F"), rest>>]
            ELSE LET flat == <<Frame(d.d, f.i, "F"), rest>> IN
                 IF Fits(flat, p.w, p.pi, p.ps, o.width, o.indent)
                 THEN [p EXCEPT !.st = flat, !.m = TRUE]
                 ELSE [p EXCEPT !.st = <<Frame(d.d, f.i, "E"), rest>>, !.m = TRUE]
      [] d.t = "ifbreaks" -> IF f.m = "E" THEN [p EXCEPT !.st = <<Frame(d.d, f.i, f.m), rest>>] ELSE q
      [] d.t = "best" ->
            IF f.m = "F" /\ p.m THEN [p EXCEPT !.st = <<Frame(d.c[1], f.i, f.m), rest>>]
            ELSE [p EXCEPT !.st = <<Best1(d, 1, f, rest, p, o), rest>>, !.m = TRUE]
      [] d.t = "suffix" -> [q EXCEPT !.suf = Append(@, Frame(d.d, f.i, f.m))]
      [] OTHER -> q

Go(p, o) ==
    IF p.st # <<>> THEN Step(p, o)
    ELSE IF p.suf # <<>> THEN [p EXCEPT !.st = FoldRight(LAMBDA g, acc : <<g, acc>>, p.suf, <<>>), !.suf = <<>>]
    ELSE p

RECURSIVE Run(_, _)
(* in portions, to keep the recursion shallow *)
Run(p, o) ==
    IF p.st = <<>> /\ p.suf = <<>> THEN p
    ELSE Run(FoldLeft(LAMBDA q, k : Go(q, o), p, [k \in 1..64 |-> k]), o)

Start(d) == [st |-> <<Frame(d, 0, "E"), <<>>>>, done |-> <<>>, ln |-> "", w |-> 0, pi |-> 0, ps |-> FALSE,
             m |-> FALSE, he |-> FALSE, suf |-> <<>>]
(* The lines of the text: those that were ended, and what is after the last end. *)
LayOut(d, o) == LET p == Run(Start(d), o) IN Append(p.done, p.ln)
=============================================================================
