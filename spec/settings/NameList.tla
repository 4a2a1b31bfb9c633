------------------------------ MODULE NameList ------------------------------
(* Lists of function names (`skip`, `table`): whatever the order and repetitions they *)
(* are written in, they behave as the set of their names.                             *)
(*                                                                                    *)
(* Names are numbers in the (byte) order of the names. The code keeps a sorted vector *)
(* and looks names up by binary search; the search is modelled step by step.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), x)
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(Tail(s)), Head(s))

VARIABLES list,      \* the sorted vector
          probe,     \* name looked for, or 0
          lo, hi,    \* search interval [lo, hi)
          found
nvars == <<list, probe, lo, hi, found>>

New(names) == list' = Sort(names) /\ probe' = 0 /\ lo' = 0 /\ hi' = 0 /\ found' = FALSE
Merge(names) == New(list \o Sort(names))
Look(x) == probe = 0 /\ probe' = x /\ lo' = 1 /\ hi' = Len(list) + 1 /\ found' = FALSE /\ UNCHANGED list
Probe ==
    /\ probe # 0 /\ lo < hi /\ ~found
    /\ LET m == (lo + hi) \div 2 IN
       /\ found' = (list[m] = probe)
       /\ lo' = IF list[m] < probe THEN m + 1 ELSE lo
       /\ hi' = IF list[m] > probe THEN m ELSE hi
    /\ UNCHANGED <<list, probe>>
Answered == probe # 0 /\ (found \/ lo >= hi)
Forget == Answered /\ probe' = 0 /\ lo' = 0 /\ hi' = 0 /\ found' = FALSE /\ UNCHANGED list

Contains(l, x) == x \in Range(l)
=============================================================================
