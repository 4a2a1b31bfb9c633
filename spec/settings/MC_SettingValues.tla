-------------------------- MODULE MC_SettingValues --------------------------
EXTENDS SettingValues, Json, IOUtils
CONSTANTS Numbers, Steps
VARIABLES n
vars == <<value, n>>
AllNames == UNION {Names(o) : o \in Options} \cup {"", "Arrow", "TAB", "none"}
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E k \in WidthKinds, x \in Numbers : Configure(k, x)
           \/ \E o \in Options, x \in AllNames : Configure(o, x)
Spec == SInit /\ n = 0 /\ [][Next]_vars
\* Every option has a default which is one of its names, and names show themselves apart.
InvTable == \A o \in Options : /\ DefaultName(o) \in Names(o)
                               /\ \A x, y \in Names(o) : Shown(x) = Shown(y) => x = y
InvBounds == \A k \in WidthKinds : Valid(k, Default(k)) /\ Valid(k, Min(k)) /\ Valid(k, Max(k)) /\ ~Valid(k, Max(k) + 1) /\ ~Valid(k, 0)
Emit == IF "EMIT" \in DOMAIN IOEnv /\ n = 0 THEN
    \A k \in WidthKinds \cup Options : PrintT(<<"CASE", ToJson(
        [kind |-> k] @@ (IF k \in WidthKinds THEN [min |-> Min(k), max |-> Max(k), default |-> Default(k)]
         ELSE [default |-> DefaultName(k), names |-> {[name |-> x, shown |-> Shown(x)] : x \in Names(k)}]))>>)
    ELSE TRUE
=============================================================================
