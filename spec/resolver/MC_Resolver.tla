---------------------------- MODULE MC_Resolver ----------------------------
(* Exhaustive: all tables of at most MaxItems directories out of a small tree.     *)
EXTENDS Resolver, Json, IOUtils
CONSTANTS MaxItems, Names, Depth, Values

RECURSIVE PathsOf(_)
PathsOf(d) == IF d = 0 THEN {<<>>} ELSE {<<>>} \cup {Append(p, n) : p \in PathsOf(d - 1), n \in Names}
Dirs == {<<0>> \o p : p \in PathsOf(Depth)}
Files == {<<0>> \o p : p \in PathsOf(Depth + 1)} \cup {<<n>> : n \in Names} \cup {<<>>}

vars == items
Next ==
    \/ \E p \in Dirs, v \in Values : Len(Added(items, p, v)) <= MaxItems /\ Add(p, v)
    \/ \E p \in Dirs : Has(items, p) /\ Remove(p)
    \/ items # <<>> /\ Clear
    \/ \E q \in Files, v \in Values : Overwrite(q, v)
Spec == Init /\ [][Next]_vars

InvSorted == Sorted(items)
InvClosest == \A q \in Files : Resolved(items, q) = Closest(items, q)
InvMatches == \A q \in Files :
    /\ ShallowToDeep(Matching(items, q))
    /\ Entries(Matching(items, q)) = Enclosing(items, q)
    /\ Resolved(items, q) = (IF Matching(items, q) = <<>> THEN <<>> ELSE <<Matching(items, q)[Len(Matching(items, q))]>>)
\* Adding a directory changes the answer only below that directory; removing undoes adding.
InvLocal == \A p \in Dirs, v \in Values :
    LET its == Added(items, p, v) IN
    /\ \A q \in Files : ~Encloses(p, q) => Resolved(its, q) = Resolved(items, q)
    /\ ~Has(items, p) => Removed(its, p) = items
    /\ Resolved(its, p) = <<Item(p, v)>>

\* One test case per reachable state, replayed in the code.
Emit == IF "EMIT" \in DOMAIN IOEnv THEN
    PrintT(<<"CASE", ToJson([items |-> items,
        queries |-> {[path |-> q, resolve |-> Resolved(items, q), matches |-> Matching(items, q)] : q \in Files},
        adds |-> {[path |-> p, old |-> Old(items, p), then |-> Added(items, p, 7)] : p \in Dirs},
        removes |-> {[path |-> p, old |-> Old(items, p), then |-> Removed(items, p)] : p \in Dirs}])>>)
    ELSE TRUE
=============================================================================
