-------------------------------- MODULE Clients --------------------------------
(* A client of a server with a stream of responses.  Requests are numbered in the order of sending, responses to them  *)
(* come in the stream in some order, the stream arrives in pieces of any sizes, and each response belongs to the        *)
(* request it was a response to, whichever of them is asked for and whenever.                                            *)
EXTENDS Integers, Sequences

VARIABLES ids,        \* the identifiers of requests, in the order of sending
          msgs,       \* the stream of responses: [t, kind: "ok" | "error" | "odd" | "bad", b, n], n is the size in bytes, end is where it ends;
                      \* "odd" is a response in a wrong form, "bad" (t = 0) is something that isn't a message
          arrived,    \* how many bytes of the stream have arrived
          closed,     \* no more will arrive
          collected,  \* requests whose responses were obtained
          base,       \* how many bytes of the stream the client has consumed (if it's visible)
          doing       \* [op: "" | "poll" | "get", t]
clivars == <<ids, msgs, arrived, closed, collected, base, doing>>
Idle == [op |-> "", t |-> 0]
CInit == ids = <<>> /\ msgs = <<>> /\ arrived = 0 /\ closed = FALSE /\ collected = {} /\ base = 0 /\ doing = Idle


End(m, i) == IF i = 0 THEN 0 ELSE m[i].end
Of(m, t) == {i \in 1..Len(m) : m[i].t = t}
\* The response has arrived and can be recognised
Complete(t) == \E i \in Of(msgs, t) : End(msgs, i) <= arrived /\ \A j \in 1..i : msgs[j].kind # "bad"
\* Something that isn't a message has arrived, at least partially
Confusing == \E i \in 1..Len(msgs) : msgs[i].kind = "bad" /\ End(msgs, i - 1) < arrived

Request(t, id) == /\ doing = Idle /\ t = Len(ids) + 1 /\ \A i \in 1..Len(ids) : ids[i] # id
                  /\ ids' = Append(ids, id) /\ UNCHANGED <<msgs, arrived, closed, collected, base, doing>>
\* A request can't be sent only if the server doesn't listen any more (it isn't numbered then)
Refused == doing = Idle /\ closed /\ UNCHANGED clivars
Respond(t, kind, b, n) == /\ t \in 1..Len(ids) /\ Of(msgs, t) = {} /\ kind \in {"ok", "error", "odd"} /\ n > 0
                          /\ msgs' = Append(msgs, [t |-> t, kind |-> kind, b |-> b, n |-> n, end |-> End(msgs, Len(msgs)) + n])
                          /\ UNCHANGED <<ids, arrived, closed, collected, base, doing>>
Confuse(n) == msgs' = Append(msgs, [t |-> 0, kind |-> "bad", b |-> <<>>, n |-> n, end |-> End(msgs, Len(msgs)) + n]) /\ UNCHANGED <<ids, arrived, closed, collected, base, doing>>
Arrive(n) == ~closed /\ n > 0 /\ arrived + n <= End(msgs, Len(msgs)) /\ arrived' = arrived + n /\ UNCHANGED <<ids, msgs, closed, collected, base, doing>>
Close == closed' = TRUE /\ UNCHANGED <<ids, msgs, arrived, collected, base, doing>>

Start(op, t) == doing = Idle /\ t \in 1..Len(ids) /\ t \notin collected /\ doing' = [op |-> op, t |-> t] /\ UNCHANGED <<ids, msgs, arrived, closed, collected, base>>
\* Polling says whether it can be obtained without waiting
Polled(yes) == doing.op = "poll" /\ yes = Complete(doing.t) /\ doing' = Idle /\ UNCHANGED <<ids, msgs, arrived, closed, collected, base>>
\* Obtaining gives the response to that request, once it's complete; without any, it is an error, and only if there can be none
GotRight(t, ok, b) == IF Complete(t) THEN LET m == msgs[CHOOSE i \in Of(msgs, t) : TRUE] IN ok = (m.kind = "ok") /\ (ok => b = m.b)
                      ELSE ~ok /\ (closed \/ Confusing)
Got(ok, b) == /\ doing.op = "get" /\ (GotRight(doing.t, ok, b)) = TRUE
              /\ doing' = Idle /\ collected' = collected \union {doing.t} /\ UNCHANGED <<ids, msgs, arrived, closed, base>>

\* How the protocol identifies what the transport offers it: n bytes of the stream from where the last message ended
Front == CHOOSE i \in 1..Len(msgs) : End(msgs, i - 1) = base
OfferRight(n, reaction, id, size) ==
    LET m == msgs[Front] IN
    IF m.kind = "bad" THEN reaction = "disconnect" \/ (n < m.n /\ reaction = "read on")
    ELSE IF n < m.n THEN reaction = "read on"
    ELSE size = m.n /\ id = ids[m.t] /\ reaction = (IF m.t = doing.t THEN "ok" ELSE "wrong")
Offered(n, reaction, id, size) ==
    /\ doing.op # "" /\ base + n <= arrived /\ (OfferRight(n, reaction, id, size)) = TRUE
    /\ base' = (IF reaction \in {"ok", "wrong"} THEN base + size ELSE base)
    /\ UNCHANGED <<ids, msgs, arrived, closed, collected, doing>>
\* ... and a whole response it identified before
OfferedStored(reaction) == doing.op # "" /\ Complete(doing.t) /\ reaction = "ok" /\ UNCHANGED clivars
=============================================================================
