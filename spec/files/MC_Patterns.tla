---------------------------- MODULE MC_Patterns ----------------------------
EXTENDS Patterns, Json, IOUtils
CONSTANTS MaxLines, Depth
a == <<97>>
d == <<100>>
aR == <<97, 46, 82>>
Names == {a, d, aR}
RECURSIVE PathsOf(_)
PathsOf(k) == IF k = 0 THEN {<<>>} ELSE {<<>>} \cup {Append(p, n) : p \in PathsOf(k - 1), n \in Names}
Paths == PathsOf(Depth) \ {<<>>}
S == <<Slash>>
Bodies == {a, d, aR, <<Star>>, <<Star, 46, 82>>, <<Quest>>, <<97, Star>>, <<Open, 97, 98, Close>>, DStar,
           d \o S \o aR, d \o S \o <<Star>>, d \o S \o DStar, d \o S \o DStar \o S \o <<Star, 46, 82>>,
           DStar \o S \o d \o S \o <<97, Star>>, <<Star>> \o S \o a, <<Star, Star, 97>>, <<97, Star, Star>>}
Plain == {x \o b \o y : x \in {<<>>, S, DStar \o S}, b \in Bodies, y \in {<<>>, S}}
Patterns == {n \o p : n \in {<<>>, <<Bang>>}, p \in Plain} \cup {<<>>, <<Sharp>> \o a, <<32>>, a \o <<32, 9>>, S, d \o <<Slash, 32>>}

Init == lines = <<>> /\ dir = <<>>
Next == \/ /\ Len(lines) < MaxLines /\ dir = <<>>
           /\ \E p \in (IF "EMIT" \in DOMAIN IOEnv THEN Patterns ELSE Plain) : lines' = Append(lines, p) /\ UNCHANGED dir
        \/ /\ lines # <<>> /\ Len(dir) < Depth - 1 /\ \E n \in Names : Enter(n)
Spec == Init /\ [][Next]_pvars

\* Walking and asking agree, as long as there are no negations.
InvWalk == \A n \in Names : Matched(lines, Append(dir, n), FALSE) <=> Climb(lines, Append(dir, n), FALSE)
InvEntered == dir # <<>> => ~Climb(lines, dir, TRUE)
\* Nothing below an excluded directory survives.
InvBelow == dir = <<>> => \A p \in Paths : Len(p) > 1 /\ Climb(lines, Front(p), TRUE) => Climb(lines, p, FALSE)
\* Patterns only ever add exclusions, in any order.
InvMonotone == dir = <<>> /\ lines # <<>> => \A p \in Paths : Climb(Front(lines), p, FALSE) => Climb(lines, p, FALSE)
InvOrder == dir = <<>> /\ Len(lines) = 2 => \A p \in Paths : Climb(lines, p, FALSE) = Climb(<<lines[2], lines[1]>>, p, FALSE)
InvRoot == ~Climb(lines, <<>>, TRUE)
\* Files that are not R files, or that are generated, are never formatted.
InvRFiles == dir = <<>> => \A p \in Paths : Formatted(lines, p) => Last(p) = aR
Emit == IF "EMIT" \in DOMAIN IOEnv /\ dir = <<>> THEN
    PrintT(<<"CASE", ToJson([lines |-> lines, paths |-> {[path |-> p, r |-> <<Matched(lines, p, FALSE), Matched(lines, p, TRUE),
        Climb(lines, p, FALSE), Climb(lines, p, TRUE)>>] : p \in Paths}])>>)
    ELSE TRUE
=============================================================================
