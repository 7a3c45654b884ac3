------------------------------ MODULE MC_Futures -------------------------------
(* The fields of a future object (responder, reader, token, value, error) and what is done with them, against what the  *)
(* owner of the variables expects.  Bug: "ghost" leaves the responder in the variable that was moved from when the old  *)
(* value of the new one was collected, "again" does not keep the error, "ready" takes a response that is there for one  *)
(* that was fetched, "stays" does not forget the value of the variable that is overwritten.                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Bug, Slots, MaxCalls
VARIABLES f, calls, expects, crash, wrong
mvars == <<f, calls, expects, crash, wrong>>
Empty == [responder |-> FALSE, reader |-> FALSE, token |-> 0, value |-> 0, error |-> FALSE]
\* Results: the value of call t is t if it succeeds
Init == f = [s \in Slots |-> Empty] /\ calls = <<>> /\ expects = [s \in Slots |-> 0] /\ crash = FALSE /\ wrong = FALSE
Call(s) == /\ expects[s] = 0 /\ Len(calls) < MaxCalls /\ \E ok \in BOOLEAN : calls' = Append(calls, [state |-> "open", ok |-> ok])
           /\ f' = [f EXCEPT ![s] = [Empty EXCEPT !.responder = TRUE, !.reader = TRUE, !.token = Len(calls) + 1]]
           /\ expects' = [expects EXCEPT ![s] = Len(calls) + 1] /\ UNCHANGED <<crash, wrong>>
Answer(t) == calls[t].state = "open" /\ calls' = [calls EXCEPT ![t].state = "answered"] /\ UNCHANGED <<f, expects, crash, wrong>>
\* readResponse: [c: calls afterwards, x: the object afterwards, crash, again]
Read(x, c) == IF ~x.reader THEN [c |-> c, x |-> x, crash |-> TRUE, again |-> FALSE]
              ELSE [c |-> [c EXCEPT ![x.token].state = "fetched"],
                    x |-> IF c[x.token].ok THEN [x EXCEPT !.value = x.token] ELSE IF Bug = "again" THEN x ELSE [x EXCEPT !.error = TRUE],
                    crash |-> FALSE, again |-> c[x.token].state = "fetched"]
Same(x, c) == [c |-> c, x |-> x, crash |-> FALSE, again |-> FALSE]
Get(x, c) == IF x.error \/ x.value > 0 THEN Same(x, c) ELSE Read(x, c)
Cleanup(x, c) == LET r == IF x.responder /\ x.value = 0 /\ ~x.error THEN Read(x, c) ELSE Same(x, c)
                 IN [r EXCEPT !.x = IF Bug = "ghost" THEN [@ EXCEPT !.reader = FALSE, !.value = 0, !.error = FALSE] ELSE IF Bug = "stays" /\ r.x.value > 0 THEN [Empty EXCEPT !.value = r.x.value] ELSE Empty]
\* A future that is not answered yet would wait
Waits(x) == x.responder /\ x.reader /\ x.value = 0 /\ ~x.error /\ calls[x.token].state = "open"
DoGet(s) == /\ expects[s] > 0 /\ ~Waits(f[s])
            /\ LET r == Get(f[s], calls)
               IN /\ f' = [f EXCEPT ![s] = r.x] /\ calls' = r.c /\ crash' = (crash \/ r.crash)
                  /\ wrong' = (wrong \/ r.again \/ (~r.crash /\ (IF calls[expects[s]].ok THEN r.x.value # expects[s] ELSE r.x.value # 0)))
                  /\ UNCHANGED expects
IsReady(x) == x.value > 0 \/ x.error \/ calls[x.token].state # "open"
DoReady(s) == /\ expects[s] > 0 /\ wrong' = (wrong \/ IsReady(f[s]) # (calls[expects[s]].state # "open"))
              /\ f' = IF Bug = "ready" /\ calls[f[s].token].state = "answered" THEN [f EXCEPT ![s].value = f[s].token] ELSE f
              /\ UNCHANGED <<calls, expects, crash>>
DoMove(to, from) == /\ to # from /\ ~Waits(f[to])
                    /\ LET r == Cleanup(f[to], calls)
                           swapped == IF Bug = "stays" /\ r.x.value > 0 THEN [f[from] EXCEPT !.value = IF @ = 0 THEN r.x.value ELSE @] ELSE f[from]
                       IN /\ f' = [f EXCEPT ![to] = swapped, ![from] = IF Bug = "stays" THEN Empty ELSE r.x] /\ calls' = r.c /\ crash' = (crash \/ r.crash) /\ wrong' = (wrong \/ r.again)
                    /\ expects' = [expects EXCEPT ![to] = expects[from], ![from] = 0]
DoDrop(s) == /\ ~Waits(f[s]) /\ LET r == Cleanup(f[s], calls)
                                IN f' = [f EXCEPT ![s] = Empty] /\ calls' = r.c /\ crash' = (crash \/ r.crash) /\ wrong' = (wrong \/ r.again)
             /\ expects' = [expects EXCEPT ![s] = 0]
Next == (\E s \in Slots : Call(s) \/ DoGet(s) \/ DoReady(s) \/ DoDrop(s) \/ \E o \in Slots : DoMove(s, o)) \/ \E t \in 1..Len(calls) : Answer(t)
Spec == Init /\ [][Next]_mvars
NoCrash == ~crash
NothingWrong == ~wrong
\* No two variables share a call, and none keeps one that its owner doesn't know about
OwnedOnce == \A s \in Slots : (expects[s] = 0 => ~f[s].responder) /\ \A o \in Slots : s # o /\ expects[s] > 0 => expects[s] # expects[o]
\* Nothing is left behind: a call is either still in a variable, or its response was collected
NoneLost == \A t \in 1..Len(calls) : calls[t].state # "fetched" => \E s \in Slots : expects[s] = t
=============================================================================
