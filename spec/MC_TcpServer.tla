------------------------------ MODULE MC_TcpServer ------------------------------
(* A server that keeps its sessions in a table without gaps, each knowing its place in it, handles one event at a time   *)
(* and writes replies in parts, to clients that may disappear at any moment.  It has the guarantees of Connections.      *)
EXTENDS Connections, FiniteSets
CONSTANTS Clients,    \* how many connections there can be
          Requests,   \* how many requests each may send
          Bug         \* "none" | "index": the session moved into a gap isn't told | "escape": a failure to write stops the server
                      \* | "cut": a part that wasn't written is forgotten | "deaf": after a failure to accept, it does not accept any more
VARIABLES table,      \* sessions: [c, at (the place it believes it has)]
          waiting,    \* connections not accepted yet
          input,      \* for each connection, requests sent and not handled
          output,     \* for each connection, half replies on their way to the client
          up, accepting, refusals, bad
svars == <<table, waiting, input, output, up, accepting, refusals, bad>>
C == 1..Clients
Kinds == {"ok", "bad"}
Init == /\ TInit /\ table = <<>> /\ waiting = <<>> /\ input = [c \in C |-> <<>>] /\ output = [c \in C |-> <<>>]
        /\ up = TRUE /\ accepting = TRUE /\ refusals = 0 /\ bad = FALSE
CJoin == Len(conns) < Clients /\ Join(Len(conns) + 1) /\ waiting' = Append(waiting, Len(conns) + 1) /\ UNCHANGED <<table, input, output, up, accepting, refusals, bad>>
\* Asked and sent at once
CAsk(c, k) == /\ Is(c, {"open"}) /\ Len(conns[c].asked) < Requests /\ ~Expelled(c)
              /\ conns' = [conns EXCEPT ![c].asked = Append(@, [kind |-> k, n |-> 2]), ![c].sent = @ + 1]
              /\ input' = [input EXCEPT ![c] = Append(@, [q |-> Len(conns[c].asked) + 1, kind |-> k])] /\ UNCHANGED <<table, waiting, output, up, accepting, refusals, bad>>
CShut(c) == Shut(c) /\ UNCHANGED svars
CLeave(c) == Is(c, {"open", "shut"}) /\ Leave(c) /\ output' = [output EXCEPT ![c] = <<>>] /\ UNCHANGED <<table, waiting, input, up, accepting, refusals, bad>>
\* The client reads a whole reply
CRead(c) == /\ Is(c, {"open", "shut"}) /\ Len(output[c]) >= 2
            /\ LET a == output[c][1]
                   b == output[c][2]
                   right == ReplyRight(c, a.c, a.q, 2, a = b) IN
                IF right THEN conns' = [conns EXCEPT ![c].got = @ + 1] /\ bad' = bad ELSE bad' = TRUE /\ UNCHANGED conns
            /\ output' = [output EXCEPT ![c] = SubSeq(@, 3, Len(@))] /\ UNCHANGED <<table, waiting, input, up, accepting, refusals>>
HasSession(c) == \E i \in 1..Len(table) : table[i].c = c
\* The client sees the end
CEnd(c) == /\ Is(c, {"open", "shut"}) /\ ~HasSession(c) /\ ~\E i \in 1..Len(waiting) : waiting[i] = c
           /\ Len(output[c]) < 2
           /\ bad' = (bad \/ ~((conns[c].state = "shut" \/ Expelled(c)) /\ conns[c].got = Due(c) /\ output[c] = <<>>))
           /\ conns' = [conns EXCEPT ![c].state = "over"] /\ UNCHANGED <<table, waiting, input, output, up, accepting, refusals>>
Accept == /\ up /\ accepting /\ waiting # <<>> /\ table' = Append(table, [c |-> Head(waiting), at |-> Len(table) + 1])
          /\ waiting' = Tail(waiting) /\ UNCHANGED <<conns, input, output, up, accepting, refusals, bad>>
\* It's out of descriptors, so the connection has to wait
AcceptFails == /\ up /\ accepting /\ waiting # <<>> /\ refusals < 1 /\ refusals' = refusals + 1 /\ accepting' = (Bug # "deaf")
               /\ UNCHANGED <<conns, table, waiting, input, output, up, bad>>
\* The session removes itself according to the place it believes it has
Removed(i) == LET at == table[i].at
                  n == Len(table) IN
              IF at < n THEN [j \in 1..(n - 1) |-> IF j = at THEN (IF Bug = "index" THEN table[n] ELSE [table[n] EXCEPT !.at = at]) ELSE table[j]]
              ELSE SubSeq(table, 1, n - 1)
Handle(i) ==
    /\ up /\ i <= Len(table)
    /\ LET c == table[i].c
           gone == conns[c].state = "gone" IN
        IF input[c] = <<>>
        THEN /\ gone \/ conns[c].state = "shut"
             /\ table' = Removed(i) /\ UNCHANGED <<conns, waiting, input, output, up, accepting, refusals, bad>>
        ELSE LET r == Head(input[c])
                 half == [c |-> c, q |-> r.q] IN
             /\ input' = [input EXCEPT ![c] = Tail(@)]
             /\ IF r.kind = "bad" THEN table' = Removed(i) /\ UNCHANGED <<output, up>>
                ELSE IF gone THEN \/ output' = output /\ up' = up /\ table' = table       \* Sent, but not delivered
                                  \/ output' = output /\ (IF Bug = "escape" THEN up' = FALSE /\ table' = table ELSE up' = up /\ table' = Removed(i))
                ELSE /\ up' = up /\ table' = table
                     /\ \/ output' = [output EXCEPT ![c] = @ \o <<half, half>>]
                        \/ Bug = "cut" /\ output' = [output EXCEPT ![c] = Append(@, half)]
             /\ UNCHANGED <<conns, waiting, accepting, refusals, bad>>
Next == \/ CJoin \/ Accept \/ AcceptFails
        \/ \E c \in C : (\E k \in Kinds : CAsk(c, k)) \/ CShut(c) \/ CLeave(c) \/ CRead(c) \/ CEnd(c)
        \/ \E i \in C : Handle(i)
Fair == WF_<<conns, svars>>(Accept) /\ \A c \in C : WF_<<conns, svars>>(CRead(c)) /\ WF_<<conns, svars>>(CEnd(c)) /\ WF_<<conns, svars>>(\E i \in 1..Len(table) : table[i].c = c /\ Handle(i))
Spec == Init /\ [][Next]_<<conns, svars>> /\ Fair
Right == ~bad
Placed == \A i \in 1..Len(table) : table[i].at = i
Running == up
\* Whoever stays gets all replies
Answered == \A c \in C : (c <= Len(conns) /\ conns[c].sent > 0) ~> (c <= Len(conns) /\ (conns[c].got >= 1 \/ conns[c].state \in {"gone", "over"} \/ Due(c) = 0))
=============================================================================
