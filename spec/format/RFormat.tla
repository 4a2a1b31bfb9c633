------------------------------ MODULE RFormat ------------------------------
(* How air lays out an R program.                                              *)
(*                                                                             *)
(* A program is a tree of nodes [k, s, nl, x, b, a, z, c]: kind, text, line    *)
(* ends before the first token, a second count of line ends (before `else`,    *)
(* and before the comma that follows an argument), comments before it (each    *)
(* with the line ends before it), comment at the end of its line, comments     *)
(* after it on lines of their own, and children.                               *)
(*                                                                             *)
(* The options: width, indent, tab, persist, assign.                           *)
EXTENDS Doc, FiniteSets, Integers

Assigning == {"~", "=", ":=", "<-", "->", "<<-", "->>"}
Sticky == {"?", "^", "**", ":"}
Comparing == {"==", "!=", "<", "<=", ">", ">="}
IsBin(n) == n.k = "bin"
Chains(n) == IsBin(n) /\ n.s \notin Assigning \cup Sticky \cup Comparing
Terminal(n) == n.k \in {"id", "lit", "str"}
CallLike == {"call", "sub", "sub2"}

(* The line ends before a node or before the first comment above it, not counting  *)
(* a comment on the line of the token before it.                                   *)
LinesBefore(n) ==
    LET b == IF n.b # <<>> /\ n.b[1].n = 0 THEN Tail(n.b) ELSE n.b IN
    IF b # <<>> THEN b[1].n ELSE n.nl
OnNewLine(n) == n.nl > 0 \/ n.b # <<>>

(* Comments before a node, each on its line; one empty line is kept after them. *)
Lead(n) ==
    Cat(Each(Len(n.b), LAMBDA i :
            Cat(<<Text(n.b[i].s), IF (IF i = Len(n.b) THEN n.nl ELSE n.b[i + 1].n) > 1 THEN Empty ELSE Hard>>)))
(* The comment at the end of the line, and those on their own lines below it. *)
Below(z) ==
    Cat(Each(Len(z), LAMBDA i :
            Cat(<<Suffix(Cat(<<CASE z[i].n = 0 -> Space [] z[i].n = 1 -> Hard [] OTHER -> Empty, Text(z[i].s)>>)), Expand>>)))
Trail(n) == Cat(<<IF n.a = "" THEN Nothing ELSE Cat(<<Suffix(Cat(<<Space, Text(n.a)>>)), Expand>>), Below(n.z)>>)
(* The comments of a block or a file with nothing else in it. *)
Alone(z) ==
    Cat(Each(Len(z), LAMBDA i :
            Cat(<<IF i = 1 THEN Nothing ELSE Hard, Text(z[i].s)>>)))
Commented(n) == n.b # <<>> \/ n.a # ""
(* What a comment asks to leave alone is written as it was. *)
SkipTexts == {"# fmt: skip", "#fmt: skip", "## fmt: skip", "# fmt:skip"}
TableTexts == {"# fmt: table", "#fmt:table"}
FileTexts == {"# fmt: skip file", "#fmt:skip file"}
Says(n, texts) == \E i \in DOMAIN n.b : n.b[i].s \in texts
Skipped(n) == Says(n, SkipTexts)
Written(n) == IF Len(n.v) = 1 THEN Tabbed(n.v[1]) ELSE Lines(n.v)
Raw(n) == Cat(<<Expand, Written(n)>>)

(* Where a node is: v whether its value may be used, arg whether it is somewhere  *)
(* in an argument, eq whether `=` may assign here, left whether a chain of binary *)
(* operators is aligned with its first operand, force whether the branches of an  *)
(* `if` must have braces, flat whether a function's parameters stay on one line,  *)
(* table whether a comment asks for the call to be a table.                       *)
Top(o) == [o |-> o, table |-> FALSE, v |-> FALSE, arg |-> FALSE, eq |-> TRUE, left |-> FALSE, force |-> FALSE, flat |-> FALSE]
Plain(c) == [c EXCEPT !.table = FALSE, !.v = TRUE, !.eq = FALSE, !.left = FALSE, !.force = FALSE, !.flat = FALSE]
WithEq(c) == [Plain(c) EXCEPT !.eq = TRUE]

CurlyCurly(n, c) ==
    /\ c.arg /\ n.k = "brace" /\ Len(n.c) = 1
    /\ LET i == n.c[1].c[1] IN i.k = "brace" /\ Len(i.c) = 1 /\ i.c[1].c[1].k = "id"

Operator(n, c) ==
    CASE c.o.assign = "arrow" /\ n.s = "=" -> "<-"
      [] c.o.assign = "equal" /\ n.s = "<-" /\ c.eq -> "="
      [] OTHER -> n.s

Braced(d) == Cat(<<Text("{"), BlockIndent(d), Text("}")>>)
BracedIfBroken(d) == Cat(<<IfBreaks(Text("{")), SoftBlockIndent(d), IfBreaks(Text("}"))>>)

RECURSIVE Spine(_)
(* The operands and operators of a chain, from the left. *)
Spine(n) == IF Chains(n) THEN Append(Spine(n.c[1]), n) ELSE <<n>>

Value(a) == LET v == a.c[1] IN IF v.k = "hole" \/ v.c = <<>> THEN <<>> ELSE <<v.c[1]>>
Hole(a) == a.c[1].k = "hole"
RECURSIVE LeadingHoles(_, _)
LeadingHoles(as, k) == IF k < Len(as) /\ Hole(as[k + 1]) /\ ~Commented(as[k + 1]) THEN LeadingHoles(as, k + 1) ELSE k

(* The layout of a last argument that may open on the line of its call. *)
Grouped(v, c) ==
    LET brace(n) == n.k = "brace" /\ n.c \o n.z # <<>> /\ ~CurlyCurly(n, c) IN
    brace(v) \/ (v.k = "fun" /\ (v.c[2].k # "brace" \/ brace(v.c[2])))

RECURSIVE F(_, _)
RECURSIVE Statements(_, _, _)

Statements(list, c, root) ==
    LET n == Len(list)
        doc(i) ==
            Cat(<<Lead(list[i]),
                  IF Skipped(list[i]) THEN Raw(list[i]) ELSE F(list[i].c[1], [WithEq(c) EXCEPT !.v = ~root /\ i = n, !.table = Says(list[i], TableTexts)]),
                  Trail(list[i])>>)
        sep(i) ==
            LET k == LinesBefore(list[i]) IN
            IF root /\ k > 2 THEN Cat(<<Empty, Lines(<<"", "">>)>>) ELSE IF k > 1 THEN Empty ELSE Hard
    IN Join(Each(n, doc), Each(n, sep))

Brace(n, c) ==
    IF n.c = <<>> THEN IF n.z = <<>> THEN Text("{}") ELSE Braced(Alone(n.z))
    ELSE IF CurlyCurly(n, c) THEN
        Group(Cat(<<Text("{{"), SpaceOrBlockIndent(F(n.c[1].c[1].c[1].c[1], Plain(c))), Text("}}")>>), FALSE)
    ELSE Braced(Statements(n.c, c, FALSE))

(* The right side of an operator, with the comments above it. *)
Right(r, c) ==
    Cat(<<Lead(r), IF Skipped(r) THEN Raw(r) ELSE F(r, [c EXCEPT !.table = @ \/ Says(r, TableTexts)])>>)
(* The comment on the line of an operator comes right after its left side. *)
Ended(n) == IF n.a = "" THEN Nothing ELSE Cat(<<Suffix(Cat(<<Space, Text(n.a)>>)), Expand>>)

Assignment(n, c) ==
    LET l == n.c[1]
        r == n.c[2]
        inner == [Plain(c) EXCEPT !.eq = c.eq /\ n.s \in {"<-", "="}]
        outer == [inner EXCEPT !.table = c.table /\ r.k = "call"]
        breaks == \/ c.o.persist /\ n.s \in {"=", "<-", "<<-", "~"} /\ OnNewLine(r)
                  \/ n.a # "" \/ r.b # <<>>
        right == IF breaks THEN Indent(Cat(<<Hard, Right(r, [outer EXCEPT !.left = TRUE])>>))
                 ELSE Cat(<<Space, Right(r, outer)>>)
    IN Group(Cat(<<F(l, inner), Ended(n), Space, Text(Operator(n, c)), right>>), FALSE)

Chain(n, c) ==
    LET s == Spine(n)
        piece(i) ==
            LET r == s[i].c[2] IN
            Cat(<<Ended(s[i]), Space, Text(s[i].s), IF LinesBefore(r) > 1 THEN Empty ELSE SoftOrSpace, Right(r, Plain(c))>>)
        tail == Cat(Each(Len(s) - 1, LAMBDA i : piece(i + 1)))
    IN Group(Cat(<<F(s[1], Plain(c)), IF c.left THEN tail ELSE Indent(tail)>>), c.o.persist /\ OnNewLine(s[2].c[2]))

Binary(n, c) ==
    CASE n.s \in Assigning -> Assignment(n, c)
      [] n.s \in Sticky ->
            LET inner == [Plain(c) EXCEPT !.eq = c.eq /\ n.s = "?"] IN
            Group(Cat(<<F(n.c[1], inner), Text(n.s), F(n.c[2], inner)>>), FALSE)
      [] n.s \in Comparing ->
            Group(Cat(<<F(n.c[1], Plain(c)), Ended(n), Space, Text(n.s), Indent(Cat(<<SoftOrSpace, Right(n.c[2], Plain(c))>>))>>), FALSE)
      [] OTHER -> Chain(n, c)

Parameters(n, c) ==
    LET ps == n.c[1].c
        one(i) ==
            LET p == ps[i] IN
            Cat(<<Lead(p), Text(p.s),
                  IF p.c = <<>> THEN Nothing ELSE Cat(<<Space, Text("="), Space, F(p.c[1], Plain(c))>>),
                  Trail(p),
                  IF i < Len(ps) THEN Text(",") ELSE Nothing>>)
        sep(i) == IF LinesBefore(ps[i]) > 1 THEN Empty ELSE SoftOrSpace
    IN IF ps = <<>> THEN Text("()")
       ELSE Group(Cat(<<Text("("), SoftBlockIndent(Join(Each(Len(ps), one), Each(Len(ps), sep))), Text(")")>>),
                  c.o.persist /\ OnNewLine(ps[1]))

Function(n, c) ==
    LET body == n.c[2]
        params == Parameters(n, c)
        d == F(body, WithEq(c))
    IN Group(Cat(<<Text(n.s), IF c.flat THEN Flatten(params) ELSE params, Space,
                   IF body.k = "brace" THEN d ELSE IF OnNewLine(body) THEN Braced(d) ELSE BracedIfBroken(d)>>), FALSE)

If(n, c) ==
    LET yes == n.c[2]
        no == IF Len(n.c) = 3 THEN <<n.c[3]>> ELSE <<>>
        force == \/ c.force \/ ~c.v
                 \/ OnNewLine(yes) \/ yes.k \in {"brace", "if"}
                 \/ no # <<>> /\ (n.x > 0 \/ OnNewLine(no[1]) \/ no[1].k \in {"brace", "if"})
        branch(m, else) ==
            IF m.k = "brace" THEN F(m, WithEq(c))
            ELSE IF m.k = "if" /\ else THEN F(m, [WithEq(c) EXCEPT !.force = TRUE])
            ELSE IF force THEN Braced(F(m, WithEq(c)))
            ELSE BracedIfBroken(F(m, WithEq(c)))
    IN Group(Cat(<<Text("if"), Space, Text("("), Group(SoftBlockIndent(F(n.c[1], Plain(c))), FALSE), Text(")"), Space,
                   branch(yes, FALSE),
                   IF no = <<>> THEN Nothing ELSE Cat(<<Space, Text("else"), Space, branch(no[1], TRUE)>>)>>), FALSE)

LoopBody(n, c) == IF n.k = "brace" THEN F(n, WithEq(c)) ELSE Braced(F(n, WithEq(c)))

(* One argument without comments: the cell of a table. *)
Bare(a, c) ==
    LET v == a.c[1] IN
    CASE v.k = "hole" -> Nothing
      [] v.k = "pos" -> F(v.c[1], c)
      [] v.c = <<>> -> Cat(<<Text(v.s), Space, Text("="), Space>>)
      [] OTHER -> Cat(<<Text(v.s), Space, Text("="), Space, F(v.c[1], c)>>)

(* One argument, with the comma that follows it unless it is the last one. *)
Argument(a, c, comma) ==
    Cat(<<Lead(a),
          IF Skipped(a) THEN Raw(a) ELSE Bare(a, c),
          Trail(a),
          IF comma THEN Text(",") ELSE Nothing>>)

Arguments(n, c) ==
    LET as == n.c[2].c
        all == Len(as)
        inside == [Plain(c) EXCEPT !.arg = TRUE]
        open == Text(CASE n.k = "call" -> "(" [] n.k = "sub" -> "[" [] OTHER -> "[[")
        close == Text(CASE n.k = "call" -> ")" [] n.k = "sub" -> "]" [] OTHER -> "]]")
        doc(i) == Argument(as[i], inside, i < all)
        h == LeadingHoles(as, 0)
        rest == SubSeq(as, h + 1, all)
        k == Len(rest)
        docs == Each(Len(rest), LAMBDA i : doc(h + i))
        holes == Cat(<<Cat(Each(h, doc)), IF h > 0 /\ rest # <<>> THEN Space ELSE Nothing>>)
        spread(x) ==
            LET hug == /\ ~x /\ Len(rest) = 1 /\ rest[1].c[1].k = "pos"
                       /\ rest[1].c[1].c[1].k \in CallLike /\ ~Commented(rest[1])
                list == Join(docs, Each(k, LAMBDA i : IF LinesBefore(rest[i]) > 1 THEN Empty ELSE SoftOrSpace))
            IN Group(Cat(<<open, holes, IF hug THEN list ELSE IF rest = <<>> THEN Nothing ELSE SoftBlockIndent(list), close>>), x)
        last == rest[Len(rest)]
        v == Value(last)
        fun == v[1].k = "fun" /\ k > 1
        final == IF fun THEN Argument(last, [inside EXCEPT !.flat = TRUE], FALSE) ELSE docs[k]
        front == SubSeq(docs, 1, k - 1)
        flat == Cat(<<open, holes, Join(Append(front, final), Each(k, LAMBDA i : SoftOrSpace)), close>>)
        middle == Cat(<<open, holes, Join(Append(front, Group(final, TRUE)), Each(k, LAMBDA i : SoftOrSpace)), close>>)
        expanded == spread(TRUE)
    IN CASE as = <<>> -> Cat(<<open, close>>)
         \* the title and the block of a test never move
         [] n.k = "call" /\ all = 2 /\ (\A i \in 1..2 : Value(as[i]) # <<>> /\ ~Commented(as[i]))
                /\ Value(as[1])[1].k = "str" /\ Value(as[2])[1].k = "brace" ->
                Cat(<<open, doc(1), Space, doc(2), close>>)
         [] \E i \in 2..k : LinesBefore(rest[i]) > 1 -> spread(TRUE)
         [] /\ c.o.persist /\ rest # <<>>
            /\ LinesBefore(rest[1]) > 0 \/ \E i \in 1..h : as[i].x > 0 -> spread(TRUE)
         [] rest # <<>> /\ v # <<>> /\ ~Commented(last) /\ Grouped(v[1], inside) ->
                IF \E i \in 1..(k - 1) : docs[i].wb THEN expanded
                ELSE IF fun /\ Flatten(Parameters(v[1], inside)).wb THEN expanded
                ELSE IF docs[k].wb THEN Cat(<<Expand, Best(<<middle, expanded>>)>>)
                ELSE Best(<<flat, middle, expanded>>)
         [] OTHER -> spread(FALSE)

Named(n, names) ==
    /\ n.k = "call"
    /\ LET f == n.c[1] IN
       \/ f.k = "id" /\ f.s \in names
       \/ f.k = "ns" /\ f.c[2].k = "id" /\ f.c[2].s \in names
Tables(c) == ToSet(c.o.table) \cup IF c.o.dtable THEN {"fcase", "tribble"} ELSE {}

RECURSIVE HoldsComments(_)
(* Are there comments in this node?  Those before it are not in it. *)
HoldsComments(n) == n.a # "" \/ n.z # <<>> \/ \E i \in DOMAIN n.c : n.c[i].b # <<>> \/ HoldsComments(n.c[i])

(* The numbers of a table are aligned at their points. *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Char(s, i) == SubSeq(s, i, i)
Number(n) ==
    /\ n.k = "lit" /\ Char(n.s, Len(n.s)) # "i"
    /\ Char(n.s, 1) \in Digits \/ (Char(n.s, 1) = "." /\ Len(n.s) > 1 /\ Char(n.s, 2) \in Digits)
Point(s) == IF \E i \in 1..Len(s) : Char(s, i) = "." THEN CHOOSE i \in 1..Len(s) : Char(s, i) = "." ELSE 0
(* the widths of a number before and after its point; -1 when it has none *)
Widths(s) ==
    IF Char(s, Len(s)) = "L" THEN <<Len(s) - 1, 0>>
    ELSE IF Point(s) > 0 THEN <<Point(s) - 1, Len(s) - Point(s)>>
    ELSE <<Len(s), -1>>
Most(S) == CHOOSE x \in S : \A y \in S : y <= x

Table(n, c) ==
    LET as == n.c[2].c
        all == Len(as)
        named == {i \in 1..all : as[i].c[1].k = "named"}
        cells == IF named = {} THEN all ELSE Most({i \in 1..all : \A j \in 1..(i - 1) : j \notin named}) - 1
        inside == [Plain(c) EXCEPT !.arg = TRUE]
        value(i) == LET v == Value(as[i]) IN IF v = <<>> THEN [k |-> "none"] ELSE v[1]
        sign(i) == value(i).k = "un" /\ value(i).s \in {"+", "-"} /\ Number(value(i).c[1])
        numeric(i) == sign(i) \/ (value(i).k # "none" /\ Number(value(i)))
        text(i) == LayOut(Flatten(Bare(as[i], inside)), c.o)
        kinds == Each(cells, LAMBDA i :
                     IF numeric(i) THEN
                         LET w == IF sign(i) THEN Widths(value(i).c[1].s) ELSE Widths(value(i).s)
                             int == IF sign(i) THEN w[1] + 1 ELSE w[1]
                         IN [num |-> TRUE, int |-> int, frac |-> w[2], w |-> IF w[2] >= 0 THEN int + 1 + w[2] ELSE int,
                             bad |-> FALSE, t |-> ""]
                     ELSE LET t == text(i) IN
                          \* what ends lines does not fit into a row
                          [num |-> FALSE, int |-> 0, frac |-> 0, w |-> Len(t[1]),
                           bad |-> Len(t) > 1 \/ HoldsComments(as[i].c[1]), t |-> t[1]])
        \* a row starts where an argument, or the comma of a hole, is on a new line
        before(i) == IF Hole(as[i]) THEN as[i].x ELSE LinesBefore(as[i])
        start == FoldLeft(LAMBDA acc, i : Append(acc, IF i = 1 \/ before(i) > 0 THEN i ELSE acc[i - 1]), <<>>, [i \in 1..cells |-> i])
        column(i) == i - start[i] + 1
        width == IF cells = 0 THEN 0 ELSE Most({column(i) : i \in 1..cells})
        cols == Each(width, LAMBDA j :
                    LET in == {i \in 1..cells : column(i) = j}
                        nums == {i \in in : kinds[i].num}
                        fracs == {kinds[i].frac : i \in {k \in nums : kinds[k].frac >= 0}}
                        ints == {kinds[i].int : i \in nums}
                    IN [w |-> Most({kinds[i].w : i \in in}), dec |-> fracs # {},
                        int |-> Most({0} \cup ints), frac |-> Most({0} \cup fracs)])
        spaces(k) == IF k <= 0 THEN Nothing ELSE Text(Times(" ", k))
        cell(i) ==
            LET col == cols[column(i)]
                kind == kinds[i]
                dw == col.int + 1 + col.frac
                target == Most({col.w, dw})
                left == IF ~kind.num THEN 0 ELSE IF col.dec THEN col.int - kind.int ELSE col.w - kind.w
                right == IF col.dec THEN
                             IF kind.num THEN (IF kind.frac >= 0 THEN col.frac - kind.frac ELSE 1 + col.frac) + (target - dw)
                             ELSE target - kind.w
                         ELSE IF kind.num THEN 0 ELSE col.w - kind.w
            IN Cat(<<IF i > 1 /\ start[i] = i
                     THEN IF ~Hole(as[i]) /\ LinesBefore(as[i]) > 1 THEN Empty ELSE Hard
                     ELSE Nothing,
                     IF col.w > 0 THEN spaces(left) ELSE Nothing,
                     IF kind.num THEN Argument(as[i], inside, FALSE)
                     ELSE Cat(<<Lead(as[i]), IF kind.t = "" THEN Nothing ELSE Text(kind.t), Trail(as[i])>>),
                     IF col.w > 0 /\ i < all THEN spaces(right) ELSE Nothing,
                     IF i < all THEN Cat(<<Space, Text(",")>>) ELSE Nothing,
                     Space>>)
        last(i) == Cat(<<IF LinesBefore(as[i]) > 1 THEN Empty ELSE SoftOrSpace, Argument(as[i], inside, i < all)>>)
    IN IF as = <<>> THEN Text("()")
       ELSE IF \E i \in 1..cells : kinds[i].bad THEN Written(n.c[2])
       ELSE Group(Cat(<<Text("("),
                        SoftBlockIndent(Cat(<<Cat(Each(cells, cell)),
                                              IF cells < all THEN Cat(<<Hard, Cat(Each(all - cells, LAMBDA i : last(cells + i)))>>)
                                              ELSE Nothing>>)),
                        Text(")")>>), TRUE)

F(n, c) ==
    CASE Named(n, ToSet(c.o.skip)) -> Raw(n)
      [] n.k \in {"id", "lit"} -> Text(n.s)
      [] n.k = "str" -> IF Len(n.ls) = 1 THEN Text(n.s) ELSE Lines(n.ls)
      [] n.k = "bin" -> Binary(n, c)
      [] n.k = "un" ->
            Cat(<<Text(n.s), IF n.s = "~" /\ ~Terminal(n.c[1]) THEN Space ELSE Nothing,
                  LET d == F(n.c[1], [Plain(c) EXCEPT !.eq = n.s = "?"]) IN
                  \* a block of comments is taken for comments between the two
                  IF n.c[1].k = "brace" /\ n.c[1].c = <<>> /\ n.c[1].z # <<>> THEN Indent(Cat(<<Soft, d>>)) ELSE d>>)
      [] n.k = "par" -> Cat(<<Text("("), F(n.c[1], WithEq(c)), Text(")")>>)
      [] n.k \in {"ns", "ext"} -> Group(Cat(<<F(n.c[1], Plain(c)), Text(n.s), F(n.c[2], Plain(c))>>), FALSE)
      [] n.k = "brace" -> Brace(n, c)
      [] n.k = "fun" -> Function(n, c)
      [] n.k = "if" -> If(n, c)
      [] n.k = "for" ->
            Group(Cat(<<Text("for"), Space, Text("("), F(n.c[1], Plain(c)), Space, Text("in"), Space, F(n.c[2], Plain(c)),
                        Text(")"), Space, LoopBody(n.c[3], c)>>), FALSE)
      [] n.k = "while" ->
            Group(Cat(<<Text("while"), Space, Text("("), Group(SoftBlockIndent(F(n.c[1], Plain(c))), FALSE), Text(")"), Space,
                        LoopBody(n.c[2], c)>>), FALSE)
      [] n.k = "rep" -> Group(Cat(<<Text("repeat"), Space, LoopBody(n.c[1], c)>>), FALSE)
      [] n.k = "call" /\ (c.table \/ Named(n, Tables(c))) -> Cat(<<F(n.c[1], Plain(c)), Table(n, c)>>)
      [] n.k \in CallLike -> Cat(<<F(n.c[1], Plain(c)), Arguments(n, c)>>)

(* The lines that air makes of a program. *)
SkipsFile(p) ==
    /\ p.c # <<>>
    /\ LET b == p.c[1].b IN
       \/ \E i \in DOMAIN b : b[i].s \in FileTexts
       \/ b # <<>> /\ b[1].s = "# Generated by a tool: do not edit"
Format(p, o) ==
    IF SkipsFile(p) THEN p.v
    ELSE LayOut(Cat(<<Statements(p.c, Top(o), TRUE),
                      IF p.c = <<>> THEN Lead([b |-> p.z, nl |-> 0]) ELSE Nothing, Hard>>), o)
=============================================================================
