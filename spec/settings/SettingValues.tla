---------------------------- MODULE SettingValues ----------------------------
(* The values settings can take: widths within their documented ranges, and named    *)
(* options, whatever the notation they arrive in.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

WidthKinds == {"line-width", "indent-width"}
Min(kind) == 1
Max(kind) == CASE kind = "line-width" -> 320 [] kind = "indent-width" -> 24
Default(kind) == CASE kind = "line-width" -> 80 [] kind = "indent-width" -> 2
Valid(kind, n) == Min(kind) <= n /\ n <= Max(kind)

Options == {"assignment-style", "indent-style", "persistent-line-breaks", "line-ending"}
Names(o) == CASE o = "assignment-style" -> {"arrow", "equal", "preserve"}
              [] o = "indent-style" -> {"tab", "space"}
              [] o = "persistent-line-breaks" -> {"respect", "ignore"}
              [] o = "line-ending" -> {"auto", "lf", "crlf", "native"}
DefaultName(o) == CASE o = "assignment-style" -> "arrow"
                    [] o = "indent-style" -> "space"
                    [] o = "persistent-line-breaks" -> "respect"
                    [] o = "line-ending" -> "auto"
Shown(n) == CASE n = "arrow" -> "Arrow" [] n = "equal" -> "Equal" [] n = "preserve" -> "Preserve"
              [] n = "tab" -> "Tab" [] n = "space" -> "Space"
              [] n = "respect" -> "Respect" [] n = "ignore" -> "Ignore"
              [] n = "auto" -> "Auto" [] n = "lf" -> "LF" [] n = "crlf" -> "CRLF" [] n = "native" -> "Native"

-----------------------------------------------------------------------------
(* A setting being configured: it has its default until an accepted value replaces   *)
(* it, and a rejected one leaves it alone.                                           *)
VARIABLE value   \* kind/option -> value
SInit == value = [k \in WidthKinds |-> Default(k)] @@ [o \in Options |-> DefaultName(o)]
Accepts(k, x) == IF k \in WidthKinds THEN Valid(k, x) ELSE x \in Names(k)
Configure(k, x) == IF Accepts(k, x) THEN value' = [value EXCEPT ![k] = x] ELSE UNCHANGED value
TypeOK == /\ \A k \in WidthKinds : Valid(k, value[k])
          /\ \A o \in Options : value[o] \in Names(o)
=============================================================================
