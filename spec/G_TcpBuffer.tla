----------------------------- MODULE G_TcpBuffer -----------------------------
(* Histories for the real buffer: every sequence of read sizes and handler reactions up to a bound, from classes of    *)
(* sizes chosen around the sizes the implementation treats specially.  Printed as JSON for the driver.                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Sizes, Reactions, Depth
VARIABLE h
Init == h = <<>>
Next == /\ Len(h) < Depth
        /\ \E s \in Sizes, r \in Reactions : h' = Append(h, <<s, r>>)
Spec == Init /\ [][Next]_h
Emit == Len(h) = Depth => PrintT(<<"H", ToJson(h)>>)
=============================================================================
