---------------------------- MODULE MC_NameList ----------------------------
EXTENDS NameList
CONSTANTS N, MaxLen
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {Append(s, c) : s \in Seqs(n - 1), c \in 1..N}
Init == list \in {Sort(s) : s \in Seqs(MaxLen)} /\ probe = 0 /\ lo = 0 /\ hi = 0 /\ found = FALSE
Next == \/ \E x \in 1..N : Look(x)
        \/ Probe \/ Forget
        \/ probe = 0 /\ Len(list) <= 2 /\ \E s \in Seqs(2) : Merge(s)
Spec == Init /\ [][Next]_nvars /\ WF_nvars(Probe)
InvSorted == Sorted(list)
InvAnswer == Answered => found = Contains(list, probe)
InvSort == \A s \in Seqs(3) : Sorted(Sort(s)) /\ \A x \in 1..N : Count(Sort(s), x) = Count(s, x)
Terminates == (probe # 0) ~> Answered
=============================================================================
