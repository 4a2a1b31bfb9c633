------------------------------ MODULE Resolver ------------------------------
(* Settings resolution by path: a table of directories, each with a value, and     *)
(* the question which of them is closest to a given path.                          *)
(*                                                                                 *)
(* Shaped like the code (a vector sorted by path, scanned from the back); what the  *)
(* property talks about (the deepest registered ancestor) is stated independently   *)
(* and checked as an invariant over every state.                                   *)
(*                                                                                 *)
(* A path is a sequence of naturals, its components. 0 is the root `/`, 1 is `..`,  *)
(* larger numbers are names, numbered in their (byte) order.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLE items    \* sequence of [path, value]

-----------------------------------------------------------------------------
RECURSIVE Less(_, _)
Less(p, q) ==
    IF q = <<>> THEN FALSE
    ELSE IF p = <<>> THEN TRUE
    ELSE IF Head(p) # Head(q) THEN Head(p) < Head(q)
    ELSE Less(Tail(p), Tail(q))

\* `p` is `q` or one of its parents, component by component.
Encloses(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

Item(p, v) == [path |-> p, value |-> v]
Index(its, p) == {i \in 1..Len(its) : its[i].path = p}
Has(its, p) == Index(its, p) # {}
At(its, p) == CHOOSE i \in 1..Len(its) : its[i].path = p

-----------------------------------------------------------------------------
(* The operations, on the vector.                                                  *)
Added(its, p, v) ==
    IF Has(its, p)
    THEN [its EXCEPT ![At(its, p)] = Item(p, v)]
    ELSE LET k == Cardinality({i \in 1..Len(its) : Less(its[i].path, p)})
         IN SubSeq(its, 1, k) \o <<Item(p, v)>> \o SubSeq(its, k + 1, Len(its))

Old(its, p) == IF Has(its, p) THEN <<its[At(its, p)].value>> ELSE <<>>

Removed(its, p) == SelectSeq(its, LAMBDA it : it.path # p)

\* Scan from the back, first hit.
RECURSIVE ScanBack(_, _, _)
ScanBack(its, i, q) ==
    IF i = 0 THEN <<>>
    ELSE IF Encloses(its[i].path, q) THEN <<its[i]>>
    ELSE ScanBack(its, i - 1, q)
Resolved(its, q) == ScanBack(its, Len(its), q)

Matching(its, q) == SelectSeq(its, LAMBDA it : Encloses(it.path, q))

\* Overwriting the value of everything that encloses q.
Overwritten(its, q, v) ==
    [i \in 1..Len(its) |-> IF Encloses(its[i].path, q) THEN Item(its[i].path, v) ELSE its[i]]

-----------------------------------------------------------------------------
(* The property, stated on the set of entries.                                     *)
Entries(its) == {its[i] : i \in 1..Len(its)}
Enclosing(its, q) == {e \in Entries(its) : Encloses(e.path, q)}

Closest(its, q) ==
    LET S == Enclosing(its, q)
    IN IF S = {} THEN <<>>
       ELSE <<CHOOSE e \in S : \A f \in S : Len(f.path) <= Len(e.path)>>

Sorted(its) == \A i \in 1..(Len(its) - 1) : Less(its[i].path, its[i + 1].path)

ShallowToDeep(ms) == \A i \in 1..(Len(ms) - 1) : Len(ms[i].path) < Len(ms[i + 1].path)

Init == items = <<>>
Add(p, v) == items' = Added(items, p, v)
Remove(p) == items' = Removed(items, p)
Clear == items' = <<>>
Overwrite(q, v) == items' = Overwritten(items, q, v)
=============================================================================
