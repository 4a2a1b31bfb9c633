------------------------------ MODULE MC_RFormat ------------------------------
(* The layout of every small program, in every layout and with many options.      *)
(* What holds of the specification for all of them is stated here; the texts and  *)
(* what becomes of them are replayed into the formatter.                          *)
EXTENDS RFormat, Json, IOUtils
CONSTANTS MaxGaps, Counts, Widths2, Part, Parts
S == INSTANCE Small
T == INSTANCE Program

VARIABLES at, case
vars == <<at, case>>
Env(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
Mine(i) == i % Env("PARTS", Parts) = Env("PART", Part)

Options == [width : Widths2, indent : {2}, tab : {FALSE}, persist : BOOLEAN, assign : {"arrow", "equal"}, skip : {<<>>},
            table : {<<>>}, dtable : {TRUE}]
Shapes == S!Basic
None == [p |-> S!Root(<<>>), o |-> [width |-> 80]]

Init == at = "start" /\ case = None
Shape ==
    /\ at = "start"
    /\ \E i \in 1..Len(Shapes) :
          \/ Mine(i) /\ \E w \in {<<Shapes[i]>>, <<Shapes[i], S!Id("b")>>} : case' = [p |-> S!Root(w), o |-> None.o]
          \/ \E j \in 1..Len(S!Around(Shapes[i])) :
                /\ Mine(i + j)
                /\ S!Sound(S!Around(Shapes[i])[j])
                /\ case' = [p |-> S!Root(<<S!Around(Shapes[i])[j]>>), o |-> None.o]
    /\ at' = "shape"
Layout ==
    /\ at = "shape"
    /\ LET all == S!Places(case.p, <<>>, FALSE)
           sets == {{}} \cup {{x} : x \in all} \cup IF MaxGaps > 1 THEN {{x, y} : x, y \in all} ELSE {}
       IN \E G \in sets : \E L \in [G -> Counts] : case' = [case EXCEPT !.p = S!Placed(case.p, <<>>, L, 0)]
    /\ at' = "layout"
Choose ==
    /\ at = "layout"
    /\ \E o \in Options : case' = [case EXCEPT !.o = o]
    /\ at' = "done"
Done == at = "done" /\ UNCHANGED vars
Next == Shape \/ Layout \/ Choose \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Chars(s) == Each(Len(s), LAMBDA i : SubSeq(s, i, i))
Kept(s, drop) == SelectSeq(Chars(s), LAMBDA c : c \notin drop)
(* What formatting may add or remove, or change. *)
Loose == {" ", "\n", "{", "}", "<", "-", "="}
Glue(ss) == FoldLeft(LAMBDA a, s : a \o s, "", ss)
Trailing(line) == line # "" /\ SubSeq(line, Len(line), Len(line)) = " "
Leading(line) == LET at2 == {i \in 1..Len(line) : SubSeq(line, i, i) # " "} IN
    IF at2 = {} THEN 0 ELSE (CHOOSE i \in at2 : \A j \in at2 : i <= j) - 1
Good(p, o) ==
    LET out == Format(p, o)
        n == Len(out)
    IN \* the same text, but for blanks, braces and assignments
       /\ Kept(Glue(out), Loose) = Kept(S!Src(p), Loose)
       \* no blanks at the ends of lines, one line end at the end, no empty lines at the start
       /\ \A i \in 1..n : ~Trailing(out[i])
       /\ n >= 2 /\ out[n] = "" /\ out[n - 1] # "" /\ out[1] # ""
       \* indentation in whole steps, one step in at a time
       /\ \A i \in 1..n : Leading(out[i]) % o.indent = 0
       /\ \A i \in 2..n : out[i] # "" /\ out[i - 1] # "" => Leading(out[i]) <= Leading(out[i - 1]) + o.indent
       \* at most one empty line in a row, two between the expressions of the file
       /\ \A i \in 1..(n - 3) : ~(out[i] = "" /\ out[i + 1] = "" /\ out[i + 2] = "")
Invariant == at = "done" => Good(case.p, case.o)
(* What is replayed: the layouts, or the syntax trees. *)
Emitting(what) == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = what
Emit ==
    /\ at = "layout" /\ Emitting("tree") =>
        PrintT(<<"CASE", ToJson([text |-> S!Src(case.p) \o "\n", tree |-> T!Cst(case.p)])>>)
    /\ at = "done" /\ Emitting("layout") =>
        PrintT(<<"CASE", ToJson([text |-> S!Src(case.p) \o "\n", o |-> case.o, out |-> Format(case.p, case.o)])>>)
=============================================================================
