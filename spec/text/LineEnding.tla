----------------------------- MODULE LineEnding -----------------------------
(* Line endings: detection of a file's style, normalization to `\n`, and the choice *)
(* of the style a file is written back with.                                        *)
(*                                                                                  *)
(* A text is a sequence of code points. The state machine reads it one character at *)
(* a time, as the scanner does; the declarative definitions below are what it must  *)
(* amount to.                                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CR == 13
LF == 10

VARIABLES read,   \* what was read so far
          out,    \* normalized text of `read`, except for a pending CR
          pend,   \* a CR was read and not yet decided upon
          style   \* "none" until the first line ending, then "lf" or "crlf"
levars == <<read, out, pend, style>>

LEInit == read = <<>> /\ out = <<>> /\ pend = FALSE /\ style = "none"

Feed(c) ==
    /\ read' = Append(read, c)
    /\ pend' = (c = CR)
    /\ out' = IF c = CR
              THEN IF pend THEN Append(out, CR) ELSE out
              ELSE IF c = LF THEN Append(out, LF)
              ELSE IF pend THEN out \o <<CR, c>> ELSE Append(out, c)
    /\ style' = IF style # "none" THEN style
                ELSE IF c = LF THEN (IF pend THEN "crlf" ELSE "lf") ELSE "none"

Flushed == IF pend THEN Append(out, CR) ELSE out
Detected == IF style = "crlf" THEN "crlf" ELSE "lf"

-----------------------------------------------------------------------------
(* Declaratively. *)
LFs(t) == {i \in 1..Len(t) : t[i] = LF}
CRLFs(t) == {i \in 1..(Len(t) - 1) : t[i] = CR /\ t[i + 1] = LF}
First(S) == CHOOSE i \in S : \A j \in S : i <= j

\* The style of a file is the style of its first line ending; `\n` without any.
Infer(t) ==
    IF LFs(t) = {} THEN "lf"
    ELSE LET i == First(LFs(t)) IN IF i > 1 /\ t[i - 1] = CR THEN "crlf" ELSE "lf"

\* Exactly the CRs that are followed by a LF are dropped.
Normalize(t) ==
    LET F[i \in 0..Len(t)] ==
            IF i = 0 THEN <<>>
            ELSE IF t[i] = CR /\ i < Len(t) /\ t[i + 1] = LF THEN F[i - 1]
            ELSE Append(F[i - 1], t[i])
    IN F[Len(t)]

\* What a file with the setting `option` is written with, on this (Unix) platform.
Finalize(option, t) ==
    CASE option = "auto" -> Infer(t)
      [] option = "lf" -> "lf"
      [] option = "crlf" -> "crlf"
      [] option = "native" -> "lf"
=============================================================================
