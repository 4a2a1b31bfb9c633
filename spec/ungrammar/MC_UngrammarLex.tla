-------------------------- MODULE MC_UngrammarLex --------------------------
(* The lexer, character by character, on all short texts.                             *)
EXTENDS Ungrammar, Json, IOUtils
CONSTANT MaxLen
VARIABLES text, s
vars == <<text, s>>
Chars == {65, 98, 61, 124, 38, 39, 92, 47, 10, 13, 32, 58, 233}
Init == text = <<>> /\ s = L0
Next == \E c \in Chars : Len(text) < MaxLen /\ s.mode # "failed" /\ text' = Append(text, c) /\ s' = LexChar(s, c)
Spec == Init /\ [][Next]_vars
E == LexEnd(s)
NLs == {i \in 1..Len(text) : text[i] = NL}
InvPlace == s.mode # "failed" => s.line = 1 + Cardinality(NLs)
Before(p, q) == p.line < q.line \/ (p.line = q.line /\ p.col < q.col)
InvOrder == \A i \in 1..(Len(E.toks) - 1) : Before(E.toks[i].loc, E.toks[i + 1].loc)
InvTokens == \A i \in 1..Len(E.toks) : E.toks[i].k = "node" => E.toks[i].text # <<>> /\ \A j \in 1..Len(E.toks[i].text) : E.toks[i].text[j] \in Ident
\* Identifiers are as long as they can be: two of them are never adjacent.
InvMaximal == \A i \in 1..(Len(E.toks) - 1) : E.toks[i].k = "node" /\ E.toks[i + 1].k = "node" =>
    E.toks[i + 1].loc # [line |-> E.toks[i].loc.line, col |-> E.toks[i].loc.col + Len(E.toks[i].text)]
Emit == IF "EMIT" \in DOMAIN IOEnv THEN
    PrintT(<<"CASE", ToJson([text |-> text, want |-> Read(text)])>>) ELSE TRUE
=============================================================================
