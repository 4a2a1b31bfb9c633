---------------------------- MODULE MC_LineEnding ----------------------------
EXTENDS LineEnding, Json, IOUtils
CONSTANT MaxLen
X == 120
E == 233
Next == \E c \in {CR, LF, X, E} : Len(read) < MaxLen /\ Feed(c)
Spec == LEInit /\ [][Next]_levars

InvInfer == Detected = Infer(read)
InvNormalize == Flushed = Normalize(read)
InvNoLoss == /\ Cardinality(LFs(Flushed)) = Cardinality(LFs(read))
             /\ Len(Flushed) = Len(read) - Cardinality(CRLFs(read))
             /\ (CRLFs(read) = {} => Flushed = read)
             /\ SelectSeq(Flushed, LAMBDA c : c # CR) = SelectSeq(read, LAMBDA c : c # CR)
\* Text that is already normalized stays, but for a CR in front of a CRLF.
InvStable == (\A i \in CRLFs(read) : i = 1 \/ read[i - 1] # CR) => Normalize(Flushed) = Flushed
InvFinal == Finalize("auto", Flushed) = (IF CRLFs(Flushed) = {} THEN "lf" ELSE Infer(Flushed))
\* Detection only ever depends on the text up to the first line ending.
Latched == [][style # "none" => style' = style]_levars

Emit == IF "EMIT" \in DOMAIN IOEnv THEN
    PrintT(<<"CASE", ToJson([text |-> read, infer |-> Infer(read), normalize |-> Normalize(read),
        finals |-> <<Finalize("auto", read), Finalize("lf", read), Finalize("crlf", read), Finalize("native", read)>>])>>)
    ELSE TRUE
=============================================================================
