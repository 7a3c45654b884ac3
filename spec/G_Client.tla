------------------------------- MODULE G_Client --------------------------------
(* All short histories of a client with a few requests: responses in any order, arriving by halves, polls, retrievals. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Requests, Most
VARIABLES h, sent, responded, halves, collected, closed
gvars == <<h, sent, responded, halves, collected, closed>>
Init == h = <<>> /\ sent = 0 /\ responded = <<>> /\ halves = 0 /\ collected = {} /\ closed = FALSE
Did(op) == h' = Append(h, op)
Responded == {responded[i] : i \in 1..Len(responded)}
\* Requests and responses come first here, it's the arrivals and what the user does that matters
Next == /\ Len(h) < Most
        /\ \/ sent < Requests /\ Did(<<"request">>) /\ sent' = sent + 1 /\ UNCHANGED <<responded, halves, collected, closed>>
           \/ \E t \in 1..sent : t \notin Responded /\ ~closed /\ (Len(h) > 0 => h[Len(h)][1] # "poll") /\ Did(<<"respond", t>>) /\ responded' = Append(responded, t) /\ UNCHANGED <<sent, halves, collected, closed>>
           \/ halves < 2 * Len(responded) /\ ~closed /\ Did(<<"half">>) /\ halves' = halves + 1 /\ UNCHANGED <<sent, responded, collected, closed>>
           \/ \E t \in 1..sent : t \notin collected /\ (Len(h) > 0 => h[Len(h)] # <<"poll", t>>) /\ Did(<<"poll", t>>) /\ UNCHANGED <<sent, responded, halves, collected, closed>>
           \/ \E t \in 1..sent : t \notin collected /\ (t \in Responded \/ closed) /\ Did(<<"get", t>>) /\ collected' = collected \union {t}
                                 /\ halves' = (IF closed \/ t \notin Responded THEN halves ELSE LET p == CHOOSE i \in 1..Len(responded) : responded[i] = t IN IF halves < 2 * p THEN 2 * p ELSE halves)
                                 /\ UNCHANGED <<sent, responded, closed>>
           \/ ~closed /\ sent = Requests /\ responded # <<>> /\ Did(<<"close">>) /\ closed' = TRUE /\ UNCHANGED <<sent, responded, halves, collected>>
Spec == Init /\ [][Next]_gvars
Report == (Len(h) = Most /\ sent = Requests) => PrintT(<<"H", ToJson(h)>>)
=============================================================================
