------------------------------- MODULE MC_Calls -------------------------------
(* Clients that identify responses by their positions (as in HTTP) or by numbers sent with requests, over streams that  *)
(* deliver messages whole, whose calls may be refused before they are sent and may fail.  It has the guarantees of       *)
(* Calls.                                                                                                                *)
EXTENDS Calls, FiniteSets
CONSTANTS Most,       \* calls
          Connections,
          Numbered,   \* responses are identified by numbers instead of positions, and the connection closes after a failure
          Bug         \* "none" | "counts": a refused request gets its number anyway | "reorder": the server executes the last request first
                      \* | "shared": responses kept for later are kept for all connections | "late": a failed request gets no response
VARIABLES toServer,   \* for each connection, requests [n, t, m]
          toClient,   \* for each connection, responses [n, r]
          written, read,  \* how many requests were sent and responses read
          stored,     \* for each connection, responses read but not asked for yet
          numbers,    \* for each call, the number of its request (0 is refused)
          answered,
          bad
ivars == <<toServer, toClient, written, read, stored, numbers, answered, bad>>
C == 1..Connections
Init == /\ CallsInit /\ toServer = [c \in C |-> <<>>] /\ toClient = [c \in C |-> <<>>] /\ written = [c \in C |-> 0] /\ read = [c \in C |-> 0]
        /\ stored = [c \in C |-> {}] /\ numbers = <<>> /\ answered = {} /\ bad = FALSE
Begin == proto = "" /\ proto' = (IF Numbered THEN "bin16" ELSE "json") /\ UNCHANGED <<conns, serving, calls, ivars>>
MConnect == proto # "" /\ Len(conns) < Connections /\ Connect(Len(conns) + 1) /\ UNCHANGED ivars

Keeps(c) == IF Bug = "shared" THEN UNION {stored[x] : x \in C} ELSE stored[c]
Send(c, m) ==
    /\ Len(conns) = Connections /\ Len(calls) < Most /\ Ask(c, Len(calls) + 1, m, 0, Len(calls) + 1, FALSE)
    /\ written' = [written EXCEPT ![c] = @ + 1] /\ numbers' = Append(numbers, written[c] + 1)
    /\ toServer' = (IF conns[c].alive THEN [toServer EXCEPT ![c] = Append(@, [n |-> written[c] + 1, t |-> Len(calls) + 1, m |-> m])] ELSE toServer)
    /\ UNCHANGED <<toClient, read, stored, answered, bad>>
\* The call, the refusal and its end at once
Refuse(c, m) ==
    /\ Len(conns) = Connections /\ Len(calls) < Most
    /\ calls' = Append(calls, [c |-> c, m |-> m, s |-> 0, a |-> Len(calls) + 1, may |-> TRUE, done |-> FALSE, r |-> Throw])
    /\ numbers' = Append(numbers, 0) /\ answered' = answered \union {Len(calls) + 1}
    /\ written' = (IF Bug = "counts" THEN [written EXCEPT ![c] = @ + 1] ELSE written)
    /\ UNCHANGED <<proto, conns, serving, toServer, toClient, read, stored, bad>>
\* r is what the method gives
Work(c, r) ==
    /\ c <= Len(conns) /\ conns[c].alive /\ toServer[c] # <<>>
    /\ LET q == toServer[c]
           at == IF Bug = "reorder" THEN Len(q) ELSE 1
           x == q[at]
           rest == SubSeq(q, 1, at - 1) \o SubSeq(q, at + 1, Len(q))
           right == conns[c].queue # <<>> /\ Head(conns[c].queue) = x.t /\ calls[x.t].m = x.m
           silent == r = Throw /\ (Numbered \/ Bug = "late") IN
        /\ bad' = (bad \/ ~right)
        /\ serving' = c
        /\ calls' = [calls EXCEPT ![x.t].done = TRUE, ![x.t].r = r]
        /\ conns' = [conns EXCEPT ![c].queue = SelectSeq(@, LAMBDA y : y # x.t), ![c].alive = ~(r = Throw /\ Numbered)]
        /\ toServer' = [toServer EXCEPT ![c] = IF r = Throw /\ Numbered THEN <<>> ELSE rest]
        /\ toClient' = IF silent THEN toClient ELSE [toClient EXCEPT ![c] = Append(@, [n |-> x.n, r |-> r])]
    /\ UNCHANGED <<proto, written, read, stored, numbers, answered>>
Read(c) ==
    /\ toClient[c] # <<>> /\ read' = [read EXCEPT ![c] = @ + 1]
    /\ stored' = [stored EXCEPT ![c] = @ \union {[n |-> IF Numbered THEN Head(toClient[c]).n ELSE read[c] + 1, r |-> Head(toClient[c]).r]}]
    /\ toClient' = [toClient EXCEPT ![c] = Tail(@)] /\ UNCHANGED <<cvars, toServer, written, numbers, answered, bad>>
\* Asking for the result waits until there is something to give
Collect(t) ==
    /\ t \in 1..Len(calls) \ answered
    /\ LET c == calls[t].c
           have == {x \in Keeps(c) : x.n = numbers[t]}
           over == ~conns[c].alive /\ toClient[c] = <<>> IN
        /\ have # {} \/ over
        /\ LET x == CHOOSE x \in have : TRUE
               ok == have # {} /\ x.r # Throw IN
            /\ bad' = (bad \/ ~AnswerRight(t, ok, IF have = {} THEN Throw ELSE x.r))
            /\ stored' = (IF Bug = "shared" THEN [d \in C |-> stored[d] \ {x}] ELSE [stored EXCEPT ![c] = @ \ have])
            /\ conns' = [conns EXCEPT ![c].queue = SelectSeq(@, LAMBDA y : y # t)]
    /\ answered' = answered \union {t} /\ UNCHANGED <<proto, serving, calls, toServer, toClient, written, read, numbers>>
Results == {[t |-> "a"], [t |-> "b"], Throw}
Next == \/ Begin \/ MConnect
        \/ \E c \in C : (\E m \in {"x", "y"} : Send(c, m)) \/ Refuse(c, "x") \/ (\E r \in Results : Work(c, r)) \/ Read(c)
        \/ \E t \in 1..Most : Collect(t)
Spec == Init /\ [][Next]_<<cvars, ivars>> /\ WF_<<cvars, ivars>>(\E c \in C : (\E r \in Results : Work(c, r)) \/ Read(c)) /\ \A t \in 1..Most : WF_<<cvars, ivars>>(Collect(t))
Right == ~bad
\* All calls get their answers
Answered == \A t \in 1..Most : (t <= Len(calls)) ~> (t \in answered)
\* A response is what was executed, whoever reads it
Kept == \A c \in C : \A x \in stored[c] : \E t \in 1..Len(calls) : calls[t].c = c /\ calls[t].done /\ calls[t].r = x.r
=============================================================================
