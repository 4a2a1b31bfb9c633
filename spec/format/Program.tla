------------------------------ MODULE Program ------------------------------
(* The syntax tree of an R program, and what formatting may change about it:    *)
(* a body may get braces, and an assignment the operator that is configured.    *)
(*                                                                              *)
(* A tree is a node [k, s, c]; tokens have no kind, and a node of tokens alone  *)
(* has their text and no children.                                              *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

At(s, i) == SubSeq(s, i, i)
Leaf(k, s) == [k |-> k, s |-> s, c |-> <<>>]
Token(s) == Leaf("", s)
Tree(k, c) == [k |-> k, s |-> "", c |-> c]
Many(n, G(_)) == <<>> \o [i \in 1..n |-> G(i)]
Commas(ts) == FlattenSeq(Many(Len(ts), LAMBDA i : IF i = 1 THEN <<ts[1]>> ELSE <<Token(","), ts[i]>>))

Quotes == {"\"", "'"}
Tens == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
(* A text that stands for itself. *)
Atom(s) ==
    LET first == At(s, 1) last == At(s, Len(s)) IN
    Leaf(CASE s = "TRUE" -> "R_TRUE_EXPRESSION"
           [] s = "FALSE" -> "R_FALSE_EXPRESSION"
           [] s = "NULL" -> "R_NULL_EXPRESSION"
           [] s = "Inf" -> "R_INF_EXPRESSION"
           [] s = "NaN" -> "R_NAN_EXPRESSION"
           [] s \in {"NA", "NA_character_", "NA_integer_", "NA_real_", "NA_complex_"} -> "R_NA_EXPRESSION"
           [] s = "next" -> "R_NEXT_EXPRESSION"
           [] s = "break" -> "R_BREAK_EXPRESSION"
           [] s = "..." -> "R_DOTS"
           [] s = "..1" -> "R_DOT_DOT_I"
           [] first \in Quotes \/ (first \in {"r", "R"} /\ Len(s) > 1 /\ At(s, 2) \in Quotes) -> "R_STRING_VALUE"
           [] first \in Tens \/ (first = "." /\ Len(s) > 1 /\ At(s, 2) \in Tens) ->
                (CASE last = "L" -> "R_INTEGER_VALUE" [] last = "i" -> "R_COMPLEX_VALUE" [] OTHER -> "R_DOUBLE_VALUE")
           [] OTHER -> "R_IDENTIFIER", s)

RECURSIVE Cst(_)
Body(c) == Tree("R_EXPRESSION_LIST", c)
Name(s) == Tree("R_ARGUMENT_NAME_CLAUSE", <<Atom(s), Token("=")>>)
(* an argument without a value is a node with nothing in it *)
Arg(a) ==
    LET v == a.c[1] IN
    CASE v.k = "hole" -> Tree("R_ARGUMENT", <<>>)
      [] v.k = "pos" -> Tree("R_ARGUMENT", <<Cst(v.c[1])>>)
      [] v.c = <<>> -> Tree("R_ARGUMENT", <<Name(v.s)>>)
      [] OTHER -> Tree("R_ARGUMENT", <<Name(v.s), Cst(v.c[1])>>)
Param(p) ==
    Tree("R_PARAMETER", IF p.c = <<>> THEN <<Atom(p.s)>>
                        ELSE <<Atom(p.s), Tree("R_PARAMETER_DEFAULT", <<Token("="), Cst(p.c[1])>>)>>)
Cst(n) ==
    CASE n.k = "root" -> Tree("R_ROOT", <<Body(Many(Len(n.c), LAMBDA i : Cst(n.c[i].c[1])))>>)
      [] n.k \in {"id", "lit", "str"} -> Atom(n.s)
      [] n.k = "bin" -> Tree("R_BINARY_EXPRESSION", <<Cst(n.c[1]), Token(n.s), Cst(n.c[2])>>)
      [] n.k = "un" -> Tree("R_UNARY_EXPRESSION", <<Token(n.s), Cst(n.c[1])>>)
      [] n.k = "ns" -> Tree("R_NAMESPACE_EXPRESSION", <<Cst(n.c[1]), Token(n.s), Cst(n.c[2])>>)
      [] n.k = "ext" -> Tree("R_EXTRACT_EXPRESSION", <<Cst(n.c[1]), Token(n.s), Cst(n.c[2])>>)
      [] n.k = "par" -> Tree("R_PARENTHESIZED_EXPRESSION", <<Token("("), Cst(n.c[1]), Token(")")>>)
      [] n.k = "brace" ->
            Tree("R_BRACED_EXPRESSIONS", <<Token("{"), Body(Many(Len(n.c), LAMBDA i : Cst(n.c[i].c[1]))), Token("}")>>)
      [] n.k = "fun" ->
            Tree("R_FUNCTION_DEFINITION",
                 <<Token(n.s),
                   Tree("R_PARAMETERS", <<Token("("), Tree("R_PARAMETER_LIST", Commas(Many(Len(n.c[1].c), LAMBDA i : Param(n.c[1].c[i])))),
                                          Token(")")>>),
                   Cst(n.c[2])>>)
      [] n.k = "if" ->
            Tree("R_IF_STATEMENT",
                 <<Token("if"), Token("("), Cst(n.c[1]), Token(")"), Cst(n.c[2])>>
                 \o IF Len(n.c) = 3 THEN <<Tree("R_ELSE_CLAUSE", <<Token("else"), Cst(n.c[3])>>)>> ELSE <<>>)
      [] n.k = "for" ->
            Tree("R_FOR_STATEMENT",
                 <<Token("for"), Token("("), Cst(n.c[1]), Token("in"), Cst(n.c[2]), Token(")"), Cst(n.c[3])>>)
      [] n.k = "while" -> Tree("R_WHILE_STATEMENT", <<Token("while"), Token("("), Cst(n.c[1]), Token(")"), Cst(n.c[2])>>)
      [] n.k = "rep" -> Tree("R_REPEAT_STATEMENT", <<Token("repeat"), Cst(n.c[1])>>)
      [] n.k \in {"call", "sub", "sub2"} ->
            LET t == CASE n.k = "call" -> <<"R_CALL", "R_CALL_ARGUMENTS", "(", ")">>
                       [] n.k = "sub" -> <<"R_SUBSET", "R_SUBSET_ARGUMENTS", "[", "]">>
                       [] OTHER -> <<"R_SUBSET2", "R_SUBSET2_ARGUMENTS", "[[", "]]">>
            IN Tree(t[1], <<Cst(n.c[1]),
                            Tree(t[2], <<Token(t[3]), Tree("R_ARGUMENT_LIST", Commas(Many(Len(n.c[2].c), LAMBDA i : Arg(n.c[2].c[i])))),
                                         Token(t[4])>>)>>)

-----------------------------------------------------------------------------
(* The same program: every body in braces, one operator for assignments. *)
InBraces(t) == IF t.k = "R_BRACED_EXPRESSIONS" THEN t ELSE Tree("R_BRACED_EXPRESSIONS", <<Token("{"), Body(<<t>>), Token("}")>>)
Bodied == {"R_FUNCTION_DEFINITION", "R_FOR_STATEMENT", "R_WHILE_STATEMENT", "R_REPEAT_STATEMENT"}
RECURSIVE Normal(_, _)
Normal(t, one) ==
    LET n == Len(t.c)
        all == Many(n, LAMBDA i : Normal(t.c[i], one))
    IN CASE t.k \in Bodied -> [t EXCEPT !.c = [all EXCEPT ![n] = InBraces(@)]]
         [] t.k = "R_IF_STATEMENT" -> [t EXCEPT !.c = [all EXCEPT ![5] = InBraces(@)]]
         [] t.k = "R_ELSE_CLAUSE" -> [t EXCEPT !.c = IF all[2].k = "R_IF_STATEMENT" THEN all ELSE [all EXCEPT ![2] = InBraces(@)]]
         [] one /\ t.k = "R_BINARY_EXPRESSION" /\ t.c[2].s = "=" -> [t EXCEPT !.c = [all EXCEPT ![2].s = "<-"]]
         [] OTHER -> [t EXCEPT !.c = all]

(* Where `=` assigns: in a list of expressions, in parentheses, as a body; on either *)
(* side of such an assignment; around and after `?` in such a place.                  *)
RECURSIVE Assigned(_, _, _)
Assigned(t, eq, style) ==
    LET n == Len(t.c)
        on(i, e) == Assigned(t.c[i], e, style)
        each(E(_)) == [t EXCEPT !.c = Many(n, LAMBDA i : on(i, E(i)))]
    IN CASE t.k = "R_BINARY_EXPRESSION" ->
                LET op == t.c[2].s
                    new == CASE style = "arrow" /\ op = "=" -> "<-"
                             [] style = "equal" /\ op = "<-" /\ eq -> "="
                             [] OTHER -> op
                    e == eq /\ op \in {"=", "<-", "?"}
                IN [t EXCEPT !.c = <<on(1, e), Token(new), on(3, e)>>]
         [] t.k = "R_UNARY_EXPRESSION" -> each(LAMBDA i : t.c[1].s = "?")
         [] t.k \in {"R_EXPRESSION_LIST", "R_PARENTHESIZED_EXPRESSION", "R_ELSE_CLAUSE"} -> each(LAMBDA i : TRUE)
         [] t.k \in Bodied -> each(LAMBDA i : i = n)
         [] t.k = "R_IF_STATEMENT" -> each(LAMBDA i : i >= 5)
         [] OTHER -> each(LAMBDA i : FALSE)

RECURSIVE Apart(_)
(* Comments that were moved onto one line. *)
Apart(s) ==
    LET ends == {i \in 2..(Len(s) - 1) : SubSeq(s, i, i + 1) = " #"} IN
    IF ends = {} THEN <<s>>
    ELSE LET i == CHOOSE i \in ends : \A j \in ends : i <= j IN
         <<SubSeq(s, 1, i - 1)>> \o Apart(SubSeq(s, i + 1, Len(s)))
AllApart(cs) == FlattenSeq(Many(Len(cs), LAMBDA i : Apart(cs[i])))
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

-----------------------------------------------------------------------------
(* What is between the tokens of a file goes to them: gap 1 is before the first *)
(* token, the last one is after the last token and before the end of the file.  *)
Newlines(gap) == {i \in DOMAIN gap : gap[i].k = "newline"}
Comments(gap) == {i \in DOMAIN gap : gap[i].k = "comment"}
(* How many pieces stay with the token before the gap. *)
Trailing(gap, first, last) ==
    IF first \/ (last /\ Comments(gap) = {}) THEN 0
    ELSE IF Newlines(gap) # {} THEN (CHOOSE i \in Newlines(gap) : \A j \in Newlines(gap) : i <= j) - 1
    ELSE IF last THEN Len(gap) ELSE 0
Trivia(tokens, gaps) ==
    LET n == Len(tokens)
        split(i) == Trailing(gaps[i], i = 1, i = n + 1)
        part(i) ==
            [b |-> SubSeq(gaps[i], split(i) + 1, Len(gaps[i])),
             t |-> IF i > n THEN "" ELSE tokens[i],
             a |-> IF i > n THEN <<>> ELSE SubSeq(gaps[i + 1], 1, split(i + 1))]
    IN Many(n + 1, part)
=============================================================================
