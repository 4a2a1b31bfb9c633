-------------------------------- MODULE Small --------------------------------
(* All small programs of some shapes, all their layouts with up to MAXGAPS line  *)
(* ends in unusual places, and their texts.                                      *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Nd(k, s, c) == [k |-> k, s |-> s, ls |-> IF k = "str" THEN <<s>> ELSE <<>>, v |-> <<>>, nl |-> 0, x |-> 0, b |-> <<>>,
                a |-> "", z |-> <<>>, c |-> c]
Id(s) == Nd("id", s, <<>>)
One == Nd("lit", "1", <<>>)
Str == Nd("str", "\"s\"", <<>>)
Stm(e) == Nd("stm", "", <<e>>)
Root(es) == Nd("root", "", [i \in 1..Len(es) |-> Stm(es[i])])
Bin(op, l, r) == Nd("bin", op, <<l, r>>)
Un(op, e) == Nd("un", op, <<e>>)
Par(e) == Nd("par", "", <<e>>)
Curly(es) == Nd("brace", "", [i \in 1..Len(es) |-> Stm(es[i])])
Arg(v) == Nd("arg", "", <<v>>)
Pos(e) == Arg(Nd("pos", "", <<e>>))
Named2(s, e) == Arg(Nd("named", s, <<e>>))
Empty2 == Arg(Nd("hole", "", <<>>))
Call(k, f, as) == Nd(k, "", <<f, Nd("args", "", as)>>)
Param(s, d) == Nd("param", s, d)
Fun(ps, e) == Nd("fun", "function", <<Nd("params", "", ps), e>>)
If2(c, y) == Nd("if", "", <<c, y>>)
If3(c, y, n) == Nd("if", "", <<c, y, n>>)
For(e) == Nd("for", "", <<Id("i"), Id("xs"), e>>)
While(c, e) == Nd("while", "", <<c, e>>)
Repeat(e) == Nd("rep", "", <<e>>)

Closed(e) == e.k \in {"id", "lit", "str", "call", "sub", "sub2", "par"}
Operand(e) == IF Closed(e) THEN e ELSE Par(e)
(* what may follow a head without being taken for more of it *)
Tail2(e) == IF e.k = "bin" /\ e.s = "=" THEN Par(e) ELSE e
Then(e) == IF e.k = "if" THEN Par(e) ELSE e

Atoms == <<Id("a"), One, Str>>
Basic == <<
    Id("a"), One, Str,
    Bin("<-", Id("x"), Id("a")), Bin("=", Id("x"), One), Bin("+", Id("a"), Id("b")), Bin("==", Id("a"), One),
    Bin(":", One, Id("n")), Bin("~", Id("y"), Id("x")), Bin("|>", Id("a"), Call("call", Id("f"), <<>>)),
    Un("-", Id("a")), Un("~", Id("a")), Par(Id("a")), Curly(<<>>), Curly(<<Id("a")>>), Curly(<<Id("a"), One>>),
    Call("call", Id("f"), <<>>), Call("call", Id("f"), <<Pos(Id("a"))>>), Call("call", Id("f"), <<Pos(Id("a")), Named2("x", One)>>),
    Call("sub", Id("d"), <<Empty2, Pos(One)>>), Call("sub2", Id("d"), <<Pos(Str)>>),
    Call("call", Id("f"), <<Pos(Str), Pos(Curly(<<Id("a")>>))>>), Call("call", Id("f"), <<Pos(Fun(<<>>, Curly(<<Id("a")>>)))>>),
    Call("call", Id("f"), <<Pos(Id("a")), Pos(Fun(<<Param("x", <<>>)>>, Id("a")))>>),
    Fun(<<>>, Id("a")), Fun(<<Param("x", <<>>), Param("y", <<One>>)>>, Curly(<<Id("a")>>)),
    If2(Id("a"), Id("b")), If3(Id("a"), Id("b"), One), If3(Id("a"), Curly(<<Id("b")>>), If2(Id("c"), One)),
    For(Id("a")), While(Id("a"), Curly(<<>>)), Repeat(Id("a")), Curly(<<Curly(<<Id("a")>>)>>) >>

(* A program around another one. *)
Around(e) == <<
    Bin("<-", Id("x"), Tail2(e)), Bin("+", Operand(e), Id("b")), Bin("|>", Operand(e), Call("call", Id("g"), <<Pos(Id("b"))>>)),
    Bin("*", Bin("+", Id("a"), One), One), Bin("==", Id("a"), Operand(e)), Bin("~", Id("y"), Operand(e)), Bin("^", Id("y"), Operand(e)),
    Un("-", Operand(e)), Un("~", Operand(e)), Par(e), Curly(<<e>>), Curly(<<e, e>>),
    Call("call", Id("g"), <<Pos(Tail2(e))>>), Call("call", Id("g"), <<Named2("x", Tail2(e))>>), Call("call", Id("g"), <<Pos(Id("a")), Pos(Tail2(e))>>),
    Call("call", Id("g"), <<Pos(Tail2(e)), Named2("x", One)>>), Call("sub", Id("d"), <<Empty2, Pos(Tail2(e))>>),
    Call("sub", Id("d"), <<Pos(Tail2(e)), Empty2>>), Call("call", Operand(e), <<Pos(One)>>),
    Fun(<<>>, e), Fun(<<Param("x", <<Tail2(e)>>)>>, Id("a")), If2(Tail2(e), One), If2(Id("a"), e), If3(Id("a"), Then(e), One), If3(Id("a"), One, e),
    For(e), While(Tail2(e), Id("a")), While(Id("a"), e), Repeat(e),
    Bin("+", Bin("+", Id("a"), Operand(e)), Id("b")), Call("call", Id("g"), <<Pos(Str), Pos(Curly(<<e>>))>>),
    Call("call", Id("g"), <<Pos(Fun(<<Param("x", <<>>)>>, e))>>), Call("call", Id("g"), <<Pos(Call("call", Id("f"), <<Pos(Tail2(e))>>))>>) >>

(* A `*` binds more tightly than the `+` to its left. *)
Sound(e) == \A bad \in {Bin("*", Bin("+", Id("a"), One), One)} : e # bad

-----------------------------------------------------------------------------
(* Where line ends may be: <<path, kind>>.  in: are there brackets around, so that *)
(* a line end does not end the expression?                                          *)
RECURSIVE Places(_, _, _)
Sub(n, i, path, in) == Places(n.c[i], Append(path, i), in)
Here(path, i) == {Append(path, i)}
Cut(path) == {Append(path, 0)}
Places(n, path, in) ==
    CASE n.k \in {"root", "brace"} ->
            UNION {IF i = 1 /\ n.k = "root" THEN {} ELSE Here(path, i) : i \in 1..Len(n.c)}
            \cup UNION {Places(n.c[i].c[1], path \o <<i, 1>>, n.k = "brace") : i \in 1..Len(n.c)}
      [] n.k = "bin" -> Sub(n, 1, path, in) \cup Here(path, 2) \cup Sub(n, 2, path, in)
      [] n.k = "un" -> Sub(n, 1, path, in)
      [] n.k = "par" -> Here(path, 1) \cup Sub(n, 1, path, TRUE)
      [] n.k \in {"call", "sub", "sub2"} ->
            Sub(n, 1, path, in)
            \cup UNION {LET a == n.c[2].c[i] p == path \o <<2, i>> v == a.c[1] IN
                        IF v.k = "hole" THEN (IF i < Len(n.c[2].c) THEN Cut(p) ELSE {})
                        ELSE {p} \cup IF v.c = <<>> THEN {} ELSE Places(v.c[1], p \o <<1, 1>>, TRUE) : i \in 1..Len(n.c[2].c)}
      [] n.k = "fun" ->
            UNION {{path \o <<1, i>>} \cup IF n.c[1].c[i].c = <<>> THEN {} ELSE Places(n.c[1].c[i].c[1], path \o <<1, i, 1>>, TRUE)
                   : i \in 1..Len(n.c[1].c)}
            \cup Here(path, 2) \cup Sub(n, 2, path, in)
      [] n.k = "if" ->
            Here(path, 1) \cup Sub(n, 1, path, TRUE) \cup Here(path, 2) \cup Sub(n, 2, path, in)
            \cup IF Len(n.c) = 2 THEN {} ELSE (IF in THEN Cut(path) ELSE {}) \cup Here(path, 3) \cup Sub(n, 3, path, in)
      [] n.k = "for" -> Here(path, 2) \cup Here(path, 3) \cup Sub(n, 3, path, in)
      [] n.k = "while" -> Here(path, 1) \cup Sub(n, 1, path, TRUE) \cup Here(path, 2) \cup Sub(n, 2, path, in)
      [] n.k = "rep" -> Here(path, 1) \cup Sub(n, 1, path, in)
      [] OTHER -> {}

(* The program with the line ends of a layout, a function from places to numbers. *)
RECURSIVE Placed(_, _, _, _)
Placed(n, path, L, nl) ==
    LET own(i, dflt) == LET p == Append(path, i) IN Placed(n.c[i], p, L, IF p \in DOMAIN L THEN L[p] ELSE dflt)
        shared(i) == Placed(n.c[i], Append(path, i), L, nl)
        all == [i \in 1..Len(n.c) |->
                  CASE n.k \in {"root", "brace"} -> own(i, IF i = 1 THEN 0 ELSE 1)
                    [] n.k \in {"stm", "arg", "pos"} \/ (n.k \in {"bin", "call", "sub", "sub2"} /\ i = 1) -> shared(i)
                    [] OTHER -> own(i, 0)]
        x == LET p == Append(path, 0) IN IF p \in DOMAIN L THEN L[p] ELSE 0
    IN [n EXCEPT !.nl = IF n.k \in {"root", "args", "params", "hole"} \/ (n.k = "arg" /\ n.c[1].k = "hole") THEN 0 ELSE nl,
                 !.x = x, !.c = all]

-----------------------------------------------------------------------------
(* The text: every two tokens with a space or with line ends between them. *)
Space2(nl) == IF nl = 0 THEN " " ELSE FoldLeft(LAMBDA a, k : a \o "\n", "", [k \in 1..nl |-> k])
RECURSIVE Src(_)
Before(n) == Space2(n.nl) \o Src(n)
Glue(ss) == FoldLeft(LAMBDA a, s : a \o s, "", ss)
Src(n) ==
    CASE n.k \in {"id", "lit", "str"} -> n.s
      [] n.k = "root" -> Glue([i \in 1..Len(n.c) |-> IF i = 1 THEN Src(n.c[1].c[1]) ELSE Before(n.c[i].c[1])])
      [] n.k = "brace" -> "{" \o Glue([i \in 1..Len(n.c) |-> Before(n.c[i].c[1])]) \o " }"
      [] n.k = "bin" -> Src(n.c[1]) \o " " \o n.s \o Before(n.c[2])
      [] n.k = "un" -> n.s \o " " \o Src(n.c[1])
      [] n.k = "par" -> "(" \o Before(n.c[1]) \o " )"
      [] n.k \in {"call", "sub", "sub2"} ->
            LET as == n.c[2].c
                arg(a) ==
                    LET v == a.c[1] IN
                    CASE v.k = "hole" -> Space2(a.x)
                      [] v.k = "pos" -> Before(v.c[1])
                      [] OTHER -> Space2(a.nl) \o v.s \o " =" \o (IF v.c = <<>> THEN "" ELSE Before(v.c[1]))
                open == CASE n.k = "call" -> "(" [] n.k = "sub" -> "[" [] OTHER -> "[["
                close == CASE n.k = "call" -> " )" [] n.k = "sub" -> " ]" [] OTHER -> " ]]"
            IN Src(n.c[1]) \o open \o Glue([i \in 1..Len(as) |-> arg(as[i]) \o (IF i < Len(as) THEN " ," ELSE "")]) \o close
      [] n.k = "fun" ->
            LET ps == n.c[1].c
                param(p) == Space2(p.nl) \o p.s \o (IF p.c = <<>> THEN "" ELSE " =" \o Before(p.c[1]))
            IN n.s \o " (" \o Glue([i \in 1..Len(ps) |-> param(ps[i]) \o (IF i < Len(ps) THEN " ," ELSE "")]) \o " )" \o Before(n.c[2])
      [] n.k = "if" ->
            "if (" \o Before(n.c[1]) \o " )" \o Before(n.c[2])
            \o (IF Len(n.c) = 2 THEN "" ELSE Space2(n.x) \o "else" \o Before(n.c[3]))
      [] n.k = "for" -> "for ( " \o n.c[1].s \o " in" \o Before(n.c[2]) \o " )" \o Before(n.c[3])
      [] n.k = "while" -> "while (" \o Before(n.c[1]) \o " )" \o Before(n.c[2])
      [] n.k = "rep" -> "repeat" \o Before(n.c[1])
=============================================================================
