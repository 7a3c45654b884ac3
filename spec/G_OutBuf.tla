------------------------------- MODULE G_OutBuf -------------------------------
(* Every sequence of a few appends with lengths relative to the storage size; the driver's case is built around it.    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Ops, Depth
VARIABLE h
Init == h = <<>>
Next == Len(h) < Depth /\ \E o \in Ops : h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == Len(h) = Depth => PrintT(<<"H", ToJson(h)>>)
=============================================================================
