------------------------------ MODULE Connections ------------------------------
(* Connections to a TCP server.  A client sends numbered requests, each says how large the reply to it is, some make    *)
(* the server close the connection.  Each connection gets replies to its requests, complete and in order, whatever the  *)
(* other connections do and however they end.                                                                            *)
EXTENDS Integers, Sequences

VARIABLE conns      \* for each connection [asked: what was requested ("n" is the reply's size, "bad" and "fail" end the connection),
                    \*  sent: how many requests were sent whole, got: how many replies were received whole,
                    \*  state: "open" | "shut" (it won't send more) | "over" (all was received) | "gone" (closed by the client)]
New == [asked |-> <<>>, sent |-> 0, got |-> 0, state |-> "open"]
TInit == conns = <<>>
Is(c, s) == c \in 1..Len(conns) /\ conns[c].state \in s
Upd(c, f, v) == conns' = [conns EXCEPT ![c][f] = v]

Join(c) == c = Len(conns) + 1 /\ conns' = Append(conns, New)
Asked(c, kind, n) == Is(c, {"open"}) /\ Upd(c, "asked", Append(conns[c].asked, [kind |-> kind, n |-> n]))
\* k of the requests have been sent whole
Sent(c, k) == Is(c, {"open"}) /\ k >= conns[c].sent /\ k <= Len(conns[c].asked) /\ Upd(c, "sent", k)
Ends(r) == r.kind # "ok"
\* Requests after one that ends the connection aren't replied to
Due(c) == LET a == conns[c].asked
              ends == {i \in 1..conns[c].sent : Ends(a[i])} IN
          IF ends = {} THEN conns[c].sent ELSE (CHOOSE i \in ends : \A j \in ends : i <= j) - 1
Expelled(c) == \E i \in 1..conns[c].sent : Ends(conns[c].asked[i])
ReplyRight(c, owner, number, n, ok) == LET g == conns[c].got + 1 IN g <= Due(c) /\ owner = c /\ number = g /\ n = conns[c].asked[g].n /\ ok
Reply(c, owner, number, n, ok) == Is(c, {"open", "shut"}) /\ (ReplyRight(c, owner, number, n, ok)) = TRUE /\ Upd(c, "got", conns[c].got + 1)
\* The client has waited for all that is to come
Awaited(c) == Is(c, {"open", "shut"}) /\ conns[c].got = Due(c) /\ UNCHANGED conns
Shut(c) == Is(c, {"open"}) /\ Upd(c, "state", "shut")
\* The end of the stream; rest is how many bytes of an incomplete reply there were
End(c, rest) == Is(c, {"open", "shut"}) /\ (conns[c].state = "shut" \/ Expelled(c)) /\ conns[c].got = Due(c) /\ rest = 0 /\ Upd(c, "state", "over")
\* The client disconnects without waiting for anything
Leave(c) == Is(c, {"open", "shut", "over"}) /\ Upd(c, "state", "gone")
Served == \A c \in 1..Len(conns) : conns[c].state \in {"over", "gone"}
=============================================================================
