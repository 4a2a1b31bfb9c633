------------------------------ MODULE Directive ------------------------------
(* Comment directives: which comments are instructions to the formatter.            *)
(*                                                                                  *)
(* A reader of one character at a time:                                             *)
(*   start -> hashes -> category -> command, or `no` as soon as it is no comment.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Hash == 35
Colon == 58
\* Unicode White_Space
White == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}

Fmt == <<102, 109, 116>>                                   \* fmt
Skip == <<115, 107, 105, 112>>                             \* skip
SkipFile == <<115, 107, 105, 112, 32, 102, 105, 108, 101>> \* skip file
Table == <<116, 97, 98, 108, 101>>                         \* table
GeneratedBy == <<71, 101, 110, 101, 114, 97, 116, 101, 100, 32, 98, 121>> \* Generated by

VARIABLES read, phase, category, command, gap
dvars == <<read, phase, category, command, gap>>

DInit == read = <<>> /\ phase = "start" /\ category = <<>> /\ command = <<>> /\ gap = <<>>

\* `command` never ends in white space: trailing space is kept in `gap` until more follows.
Feed(c) ==
    /\ read' = Append(read, c)
    /\ CASE phase = "start" ->
              /\ phase' = IF c = Hash THEN "hashes" ELSE "no"
              /\ UNCHANGED <<category, command, gap>>
         [] phase \in {"hashes", "space"} ->
              IF c = Hash /\ phase = "hashes" THEN UNCHANGED <<phase, category, command, gap>>
              ELSE IF c \in White THEN phase' = "space" /\ UNCHANGED <<category, command, gap>>
              ELSE IF c = Colon THEN phase' = "command" /\ UNCHANGED <<category, command, gap>>
              ELSE phase' = "category" /\ category' = <<c>> /\ UNCHANGED <<command, gap>>
         [] phase = "category" ->
              IF c = Colon THEN phase' = "command" /\ UNCHANGED <<category, command, gap>>
              ELSE category' = Append(category, c) /\ UNCHANGED <<phase, command, gap>>
         [] phase = "command" ->
              IF c \in White
              THEN /\ gap' = IF command = <<>> THEN <<>> ELSE Append(gap, c)
                   /\ UNCHANGED <<phase, category, command>>
              ELSE command' = command \o gap \o <<c>> /\ gap' = <<>> /\ UNCHANGED <<phase, category>>
         [] OTHER -> UNCHANGED <<phase, category, command, gap>>

Outcome ==
    IF phase = "command" /\ category = Fmt
    THEN CASE command = Skip -> "skip"
           [] command = SkipFile -> "skip-file"
           [] command = Table -> "table"
           [] OTHER -> "none"
    ELSE "none"

-----------------------------------------------------------------------------
(* Declaratively, on the whole text. *)
RECURSIVE DropWhile(_, _)
DropWhile(t, S) == IF t # <<>> /\ Head(t) \in S THEN DropWhile(Tail(t), S) ELSE t
RECURSIVE DropBack(_, _)
DropBack(t, S) == IF t # <<>> /\ t[Len(t)] \in S THEN DropBack(SubSeq(t, 1, Len(t) - 1), S) ELSE t
IsComment(t) == t # <<>> /\ t[1] = Hash
Content(t) == DropWhile(DropWhile(t, {Hash}), White)
Colons(t) == {i \in 1..Len(t) : t[i] = Colon}
FirstColon(t) == CHOOSE i \in Colons(t) : \A j \in Colons(t) : i <= j

Parse(t) ==
    IF ~IsComment(t) \/ Colons(Content(t)) = {} THEN "none"
    ELSE LET b == Content(t)
             k == FirstColon(b)
             cmd == DropWhile(DropBack(SubSeq(b, k + 1, Len(b)), White), White)
         IN IF SubSeq(b, 1, k - 1) # Fmt THEN "none"
            ELSE IF cmd = Skip THEN "skip"
            ELSE IF cmd = SkipFile THEN "skip-file"
            ELSE IF cmd = Table THEN "table" ELSE "none"

\* `# Generated by ...`: a file written by a tool.
Special(t) ==
    IF IsComment(t) /\ Len(Content(t)) >= Len(GeneratedBy) /\ SubSeq(Content(t), 1, Len(GeneratedBy)) = GeneratedBy
    THEN "skip-file" ELSE "none"
=============================================================================
