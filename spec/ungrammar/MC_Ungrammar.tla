---------------------------- MODULE MC_Ungrammar ----------------------------
(* All token sequences up to a length; the lexer on all short texts separately.       *)
EXTENDS Ungrammar, Json, IOUtils
CONSTANTS MaxLen, Small, Prefixed
VARIABLES toks, st
vars == <<toks, st>>
A == <<65>>
B == <<66>>
x == <<120>>
Alphabet == LET T0(k) == [k |-> k, text |-> <<>>]
                N(n) == [k |-> "node", text |-> n]
            IN {N(A), N(B), [k |-> "token", text |-> x], T0("="), T0("?"), T0("("), T0(")"), T0("|"), T0("&&"), T0(":")}
               \cup (IF Small THEN {} ELSE {T0("*"), T0("||"), [k |-> "token", text |-> A]})
Place(n) == [line |-> 1, col |-> n]
Start == IF Prefixed THEN <<Tok("node", A, Place(1)), Tok("=", <<>>, Place(2))>> ELSE <<>>
\* `st` has read all tokens but the last, whose successor is not known yet.
Init == toks = Start /\ st = IF Prefixed THEN ParseStep(P0, Start[1], "=") ELSE P0
Next ==
    /\ Len(toks) < MaxLen /\ st.mode # "failed"
    /\ \E a \in Alphabet :
        /\ toks' = Append(toks, Tok(a.k, a.text, Place(Len(toks) + 1)))
        /\ st' = IF toks = <<>> THEN st ELSE ParseStep(st, toks[Len(toks)], a.k)
Spec == Init /\ [][Next]_vars
R == Finish(IF toks = <<>> THEN st ELSE ParseStep(st, toks[Len(toks)], ""))

RECURSIVE Shape(_)
Shape(r) == CASE r.k \in {"node", "token"} -> TRUE
              [] r.k \in {"label", "opt", "rep"} -> Shape(r.rule)
              [] OTHER -> Len(r.rules) >= 2 /\ \A i \in 1..Len(r.rules) : Shape(r.rules[i])
RECURSIVE Mentions(_)
Mentions(r) == CASE r.k = "node" -> {r.name} [] r.k = "token" -> {}
                 [] r.k \in {"label", "opt", "rep"} -> Mentions(r.rule)
                 [] OTHER -> UNION {Mentions(r.rules[i]) : i \in 1..Len(r.rules)}
InvShape == R.mode # "failed" => \A i \in 1..Len(R.rules) : Shape(R.rules[i][2])
\* Writing a grammar down and reading it again gives the same grammar.
InvRoundTrip == R.mode # "failed" => LET again == Parse(ShowRules(R.rules)) IN again.rules = R.rules /\ again.mode # "failed"
\* Every node is defined exactly once, and every mention is defined.
InvDefined == R.mode # "failed" =>
    /\ Len(R.rules) = Len(R.nodes)
    /\ {R.rules[i][1] : i \in 1..Len(R.rules)} = {R.nodes[i] : i \in 1..Len(R.nodes)}
    /\ \A i \in 1..Len(R.rules) : Mentions(R.rules[i][2]) \subseteq {R.nodes[j] : j \in 1..Len(R.nodes)}
\* An error is at one of the tokens, or about the end or a node.
InvError == R.mode = "failed" => (R.err.loc = NoLoc <=> R.err.kind \in {"end", "undefined"}) /\ (R.err.loc # NoLoc => R.err.loc.col \in 1..Len(toks))
\* No token is lost: as many leaves as there were name and literal tokens on the right.
RECURSIVE Leaves(_)
Leaves(r) == CASE r.k \in {"node", "token"} -> 1 [] r.k = "label" -> 1 + Leaves(r.rule) [] r.k \in {"opt", "rep"} -> Leaves(r.rule)
               [] OTHER -> FoldLeft(LAMBDA n, q : n + Leaves(q), 0, r.rules)
InvLeaves == R.mode # "failed" => FoldLeft(LAMBDA n, q : n + 1 + Leaves(q[2]), 0, R.rules) = Cardinality({i \in 1..Len(toks) : toks[i].k \in {"node", "token"}})

\* As text, a blank between tokens.
Text(t) == CASE t.k = "node" -> t.text [] t.k = "token" -> <<Quote>> \o t.text \o <<Quote>>
             [] t.k = "=" -> <<61>> [] t.k = "*" -> <<42>> [] t.k = "?" -> <<63>> [] t.k = "(" -> <<40>> [] t.k = ")" -> <<41>>
             [] t.k = ":" -> <<58>> [] t.k = "|" -> <<124>> [] t.k = "||" -> <<124, 124>> [] t.k = "&&" -> <<38, 38>>
Source == FoldLeft(LAMBDA s, t : s \o (IF s = <<>> THEN <<>> ELSE <<32>>) \o Text(t), <<>>, toks)
InvLexed == LET l == Lex(Source) IN l.mode # "failed" /\ Len(l.toks) = Len(toks)
            /\ \A i \in 1..Len(toks) : l.toks[i].k = toks[i].k /\ l.toks[i].text = toks[i].text
Emit == IF "EMIT" \in DOMAIN IOEnv THEN PrintT(<<"CASE", ToJson([text |-> Source, want |-> Read(Source)])>>) ELSE TRUE
=============================================================================
