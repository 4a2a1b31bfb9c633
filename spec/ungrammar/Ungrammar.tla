----------------------------- MODULE Ungrammar -----------------------------
(* The grammar notation the syntax tree is generated from: a lexer that reads one     *)
(* character at a time, and a pushdown parser that reads one token at a time with a   *)
(* look at the next one. Both are total: they end in a grammar or in an error that     *)
(* has a kind and (but for the end of the input) the place it is at.                  *)
(*                                                                                    *)
(* Texts and names are sequences of code points.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

NL == 10
CRet == 13
Quote == 39
BSlash == 92
Slash == 47
Blank == {9, 10, 32}
Ident == (48..57) \cup (65..90) \cup (97..122) \cup {95}

NoLoc == [line |-> 0, col |-> 0]
Error(kind, arg, loc) == [kind |-> kind, arg |-> arg, loc |-> loc]
NoError == Error("", <<>>, NoLoc)

-----------------------------------------------------------------------------
(* Lexer. Lines and columns are counted from 1, in characters.                        *)
Tok(k, text, loc) == [k |-> k, text |-> text, loc |-> loc]
L0 == [mode |-> "normal", buf |-> <<>>, at |-> NoLoc, line |-> 1, col |-> 1, toks |-> <<>>, err |-> NoError]

Here(s) == [line |-> s.line, col |-> s.col]
Moved(s, c) == IF c = NL THEN [s EXCEPT !.line = @ + 1, !.col = 1] ELSE [s EXCEPT !.col = @ + 1]
Emitted(s, k, text, loc) == [s EXCEPT !.toks = Append(@, Tok(k, text, loc)), !.mode = "normal", !.buf = <<>>]
Simple(c) == CASE c = 61 -> "=" [] c = 42 -> "*" [] c = 63 -> "?" [] c = 40 -> "(" [] c = 41 -> ")" [] c = 58 -> ":" [] OTHER -> ""
Fail(s, kind, arg, loc) == [s EXCEPT !.err = Error(kind, arg, loc), !.mode = "failed"]

Begin(s, c) ==
    LET to(mode, buf) == [Moved(s, c) EXCEPT !.mode = mode, !.buf = buf, !.at = Here(s)] IN
    CASE c \in Blank -> Moved(s, c)
      [] c = Slash -> to("slash", <<>>)
      [] c = 124 -> to("pipe", <<>>)
      [] c = 38 -> to("amp", <<>>)
      [] c = Quote -> to("literal", <<>>)
      [] c \in Ident -> to("ident", <<c>>)
      [] Simple(c) # "" -> Moved(Emitted(s, Simple(c), <<>>, Here(s)), c)
      [] c = CRet -> Fail(s, "carriage return", <<>>, Here(s))
      [] OTHER -> Fail(s, "character", <<c>>, Here(s))

LexChar(s, c) ==
    CASE s.mode = "failed" -> s
      [] s.mode = "normal" -> Begin(s, c)
      [] s.mode = "ident" -> IF c \in Ident THEN [Moved(s, c) EXCEPT !.buf = Append(@, c)]
                             ELSE Begin(Emitted(s, "node", s.buf, s.at), c)
      [] s.mode = "slash" -> IF c = Slash THEN [Moved(s, c) EXCEPT !.mode = "comment"] ELSE Fail(s, "character", <<Slash>>, s.at)
      [] s.mode = "comment" -> [Moved(s, c) EXCEPT !.mode = IF c = NL THEN "normal" ELSE @]
      [] s.mode = "pipe" -> IF c = 124 THEN Moved(Emitted(s, "||", <<>>, s.at), c) ELSE Begin(Emitted(s, "|", <<>>, s.at), c)
      [] s.mode = "amp" -> IF c = 38 THEN Moved(Emitted(s, "&&", <<>>, s.at), c) ELSE Fail(s, "ampersand", <<>>, s.at)
      [] s.mode = "literal" -> IF c = Quote THEN Moved(Emitted(s, "token", s.buf, s.at), c)
                               ELSE IF c = BSlash THEN [Moved(s, c) EXCEPT !.mode = "escape"]
                               ELSE [Moved(s, c) EXCEPT !.buf = Append(@, c)]
      [] s.mode = "escape" -> IF c \in {Quote, BSlash} THEN [Moved(s, c) EXCEPT !.mode = "literal", !.buf = Append(@, c)]
                              ELSE Fail(s, "escape", <<>>, s.at)
LexEnd(s) ==
    CASE s.mode = "ident" -> Emitted(s, "node", s.buf, s.at)
      [] s.mode = "pipe" -> Emitted(s, "|", <<>>, s.at)
      [] s.mode = "slash" -> Fail(s, "character", <<Slash>>, s.at)
      [] s.mode = "amp" -> Fail(s, "ampersand", <<>>, s.at)
      [] s.mode = "literal" -> Fail(s, "unclosed", <<>>, s.at)
      [] s.mode = "escape" -> Fail(s, "escape", <<>>, s.at)
      [] OTHER -> s
Lex(text) == LexEnd(FoldLeft(LexChar, L0, text))

-----------------------------------------------------------------------------
(* Parser. A frame is a rule under construction: finished alternatives, the sequence  *)
(* being read, and its last element, which may still get a postfix and its labels.    *)
Nothing == [k |-> "nothing"]
NodeRef(n) == [k |-> "node", name |-> n]
TokenRef(n) == [k |-> "token", name |-> n]
Many(k, rs) == [k |-> k, rules |-> rs]
One(k, r) == [k |-> k, rule |-> r]
Labeled(l, r) == [k |-> "label", label |-> l, rule |-> r]
Combinators == {"|", "||", "&&"}
CombName(c) == CASE c = "|" -> "alt" [] c = "||" -> "some" [] c = "&&" -> "all"

Frame == [alts |-> <<>>, comb |-> "", items |-> <<>>, last |-> Nothing, labels |-> <<>>, post |-> FALSE, fresh |-> TRUE]
P0 == [frames |-> <<>>, mode |-> "ident", name |-> <<>>, at |-> NoLoc,
       nodes |-> <<>>, tokens |-> <<>>, rules |-> <<>>, err |-> NoError]
\* rules: definitions in order, <<name, rule>>; nodes, tokens: names in order of first appearance.

Top(s) == s.frames[Len(s.frames)]
SetTop(s, f) == [s EXCEPT !.frames = [@ EXCEPT ![Len(@)] = f]]
Seen(list, n) == IF Contains(list, n) THEN list ELSE Append(list, n)

RECURSIVE Wrap(_, _)
Wrap(labels, r) == IF labels = <<>> THEN r ELSE Labeled(labels[1], Wrap(Tail(labels), r))
Settle(f) == IF f.last = Nothing THEN f
             ELSE [f EXCEPT !.items = Append(@, Wrap(f.labels, f.last)), !.last = Nothing, !.labels = <<>>, !.post = FALSE]
SequenceOf(f) == LET it == Settle(f).items IN IF Len(it) = 1 THEN it[1] ELSE Many("seq", it)
RuleOf(f) == LET alts == Append(f.alts, SequenceOf(f)) IN IF Len(alts) = 1 THEN alts[1] ELSE Many(CombName(f.comb), alts)
Needs(f) == f.last = Nothing /\ (f.items = <<>> \/ f.labels # <<>>)     \* an element must come next

Err(s, kind, arg, loc) == [s EXCEPT !.err = Error(kind, arg, loc), !.mode = "failed"]
Atom(s, f, r) == SetTop(s, [f EXCEPT !.last = r, !.post = TRUE, !.fresh = FALSE])

\* One token `t`, with the kind of the next one.
ParseTok(s, t, look) ==
    IF s.mode = "failed" THEN s
    ELSE IF s.mode = "colon" THEN [s EXCEPT !.mode = "rule"]            \* the `:` of a label
    ELSE IF s.mode = "ident"
    THEN IF t.k # "node" THEN Err(s, "identifier expected", <<>>, t.loc)
         ELSE [s EXCEPT !.mode = "=", !.name = t.text, !.at = t.loc, !.nodes = Seen(@, t.text)]
    ELSE IF s.mode = "="
    THEN IF t.k # "=" THEN Err(s, "equals expected", <<>>, t.loc)
         ELSE IF \E i \in 1..Len(s.rules) : s.rules[i][1] = s.name THEN Err(s, "duplicate", s.name, s.at)
         ELSE [s EXCEPT !.mode = "rule", !.frames = <<Frame>>]
    ELSE LET f == Top(s)
             g == Settle(f)
             starts == t.k \in {"token", "("} \/ (t.k = "node" /\ look # "=")
             element(h) ==
                CASE t.k = "token" -> Atom([s EXCEPT !.tokens = Seen(@, t.text)], h, TokenRef(t.text))
                  [] t.k = "(" -> [SetTop(s, [h EXCEPT !.fresh = FALSE]) EXCEPT !.frames = Append(@, Frame)]
                  [] t.k = "node" /\ look = ":" ->
                        [SetTop(s, [h EXCEPT !.labels = Append(@, t.text), !.fresh = FALSE]) EXCEPT !.mode = "colon"]
                  [] OTHER -> Atom([s EXCEPT !.nodes = Seen(@, t.text)], h, NodeRef(t.text))
         IN
         IF Needs(f)
         THEN IF starts THEN element(f)
              ELSE IF f.fresh /\ t.k \in Combinators THEN Err(s, "leading combinator", <<>>, t.loc)
              ELSE Err(s, "token", <<>>, t.loc)
         ELSE IF t.k \in {"?", "*"} /\ f.post
         THEN SetTop(s, [f EXCEPT !.last = One(IF t.k = "?" THEN "opt" ELSE "rep", @), !.post = FALSE])
         ELSE IF starts THEN element(g)
         ELSE IF t.k \in Combinators
         THEN IF f.comb \notin {"", t.k} THEN Err(s, "mixed combinators", <<>>, t.loc)
              ELSE SetTop(s, [Frame EXCEPT !.alts = Append(f.alts, SequenceOf(f)), !.comb = t.k, !.fresh = FALSE])
         ELSE IF Len(s.frames) > 1
         THEN IF t.k # ")" THEN Err(s, "parenthesis expected", <<>>, t.loc)
              ELSE LET outer == [s EXCEPT !.frames = Front(@)] IN Atom(outer, Top(outer), RuleOf(f))
         ELSE [s EXCEPT !.rules = Append(@, <<s.name, RuleOf(f)>>), !.frames = <<>>, !.mode = "again"]

\* A token that ends a definition is read again, as the start of the next one.
ParseStep(s, t, look) == LET r == ParseTok(s, t, look) IN IF r.mode = "again" THEN ParseTok([r EXCEPT !.mode = "ident"], t, look) ELSE r

ParseEnd(s) ==
    IF s.mode \in {"failed", "ident"} THEN s
    ELSE IF s.mode = "rule" /\ Len(s.frames) = 1 /\ ~Needs(Top(s))
    THEN [s EXCEPT !.rules = Append(@, <<s.name, RuleOf(Top(s))>>), !.frames = <<>>, !.mode = "ident"]
    ELSE Err(s, "end", <<>>, NoLoc)

Defined(s, n) == \E i \in 1..Len(s.rules) : s.rules[i][1] = n
Finish(s) ==
    LET e == ParseEnd(s) IN
    IF e.mode = "failed" THEN e
    ELSE IF \A i \in 1..Len(e.nodes) : Defined(e, e.nodes[i]) THEN e
    ELSE Err(e, "undefined", e.nodes[CHOOSE i \in 1..Len(e.nodes) : ~Defined(e, e.nodes[i]) /\ \A j \in 1..(i - 1) : Defined(e, e.nodes[j])], NoLoc)

LookAt(toks, i) == IF i < Len(toks) THEN toks[i + 1].k ELSE ""
RECURSIVE Run(_, _, _)
Run(s, toks, i) == IF i > Len(toks) \/ s.mode = "failed" THEN s ELSE Run(ParseStep(s, toks[i], LookAt(toks, i)), toks, i + 1)
Parse(toks) == Finish(Run(P0, toks, 1))

\* The whole: [ok, nodes: <<name, rule>> in order of appearance, tokens, err].
RuleFor(s, n) == LET i == CHOOSE i \in 1..Len(s.rules) : s.rules[i][1] = n IN s.rules[i][2]
Result(p) == IF p.mode = "failed" THEN [ok |-> FALSE, nodes |-> <<>>, tokens |-> <<>>, err |-> p.err]
             ELSE [ok |-> TRUE, nodes |-> [i \in 1..Len(p.nodes) |-> [name |-> p.nodes[i], rule |-> RuleFor(p, p.nodes[i])]],
                   tokens |-> p.tokens, err |-> NoError]
Read(text) == LET l == Lex(text) IN
              IF l.mode = "failed" THEN [ok |-> FALSE, nodes |-> <<>>, tokens |-> <<>>, err |-> l.err] ELSE Result(Parse(l.toks))

-----------------------------------------------------------------------------
(* Writing a rule down again.                                                         *)
T(k) == Tok(k, <<>>, NoLoc)
RECURSIVE Show(_), ShowAll(_, _)
Paren(r) == IF r.k \in {"node", "token"} THEN Show(r) ELSE <<T("(")>> \o Show(r) \o <<T(")")>>
ShowAll(rs, sep) == IF Len(rs) = 1 THEN Paren(rs[1]) ELSE Paren(rs[1]) \o sep \o ShowAll(Tail(rs), sep)
Show(r) ==
    CASE r.k = "node" -> <<Tok("node", r.name, NoLoc)>>
      [] r.k = "token" -> <<Tok("token", r.name, NoLoc)>>
      [] r.k = "label" -> <<Tok("node", r.label, NoLoc), T(":")>> \o Paren(r.rule)
      [] r.k = "opt" -> Paren(r.rule) \o <<T("?")>>
      [] r.k = "rep" -> Paren(r.rule) \o <<T("*")>>
      [] r.k = "seq" -> ShowAll(r.rules, <<>>)
      [] r.k = "alt" -> ShowAll(r.rules, <<T("|")>>)
      [] r.k = "some" -> ShowAll(r.rules, <<T("||")>>)
      [] r.k = "all" -> ShowAll(r.rules, <<T("&&")>>)
RECURSIVE ShowRules(_)
ShowRules(rules) == IF rules = <<>> THEN <<>>
                    ELSE <<Tok("node", rules[1][1], NoLoc), T("=")>> \o Show(rules[1][2]) \o ShowRules(Tail(rules))
=============================================================================
