-------------------------------- MODULE Futures --------------------------------
(* Futures of remote calls: variables of a program, each of which may hold the future of a call.  Calls are numbered;   *)
(* each is answered at some time by a result or a failure, which the transport gives to whoever fetches it, once.       *)
EXTENDS Integers, Sequences

CONSTANTS Slots
VARIABLES holds,     \* what a variable holds: 0 nothing, t > 0 the future of call t, -1 the future of a call that was executed at once
          local,     \* results of the calls executed at once
          calls,     \* [t -> [state: "open" | "answered" | "fetched", ok, b]]
          doing      \* [op: "" | "get" | "drop" | "move" | "ready" | "call", slot]
futvars == <<holds, local, calls, doing>>
Idle == [op |-> "", slot |-> 0]
FInit == holds = [s \in Slots |-> 0] /\ local = [s \in Slots |-> <<>>] /\ calls = <<>> /\ doing = Idle

\* A call is sent: the next number
Sent(t) == doing.op = "call" /\ t = Len(calls) + 1 /\ calls' = Append(calls, [state |-> "open", ok |-> FALSE, b |-> <<>>]) /\ UNCHANGED <<holds, local, doing>>
Answered(t, ok, b) == t \in 1..Len(calls) /\ calls[t].state = "open" /\ calls' = [calls EXCEPT ![t] = [state |-> "answered", ok |-> ok, b |-> b]] /\ UNCHANGED <<holds, local, doing>>
\* The transport is asked for the response of a call: only by the future of the call, only once, and not by asking if it is ready
MayFetch(t) == /\ t \in 1..Len(calls) /\ calls[t].state # "fetched"
               /\ \/ doing.op \in {"get", "drop", "move"} /\ holds[doing.slot] = t
                  \/ doing.op = "now" /\ t = Len(calls)
Waited(t) == (MayFetch(t)) = TRUE /\ calls[t].state = "open" /\ UNCHANGED futvars
Fetched(t) == (MayFetch(t)) = TRUE /\ calls[t].state = "answered" /\ calls' = [calls EXCEPT ![t].state = "fetched"] /\ UNCHANGED <<holds, local, doing>>
Polled(t) == doing.op = "ready" /\ t \in 1..Len(calls) /\ holds[doing.slot] = t /\ UNCHANGED futvars

Begin(op, s) == doing = Idle /\ doing' = [op |-> op, slot |-> s] /\ UNCHANGED <<holds, local, calls>>
\* The end of a call whose future is put in an empty variable; was it sent or executed at once?
CallEnd(s, sent, b) == /\ doing.op = "call" /\ doing.slot = s /\ holds[s] = 0 /\ doing' = Idle
                       /\ IF sent THEN holds' = [holds EXCEPT ![s] = Len(calls)] /\ UNCHANGED local
                          ELSE holds' = [holds EXCEPT ![s] = -1] /\ local' = [local EXCEPT ![s] = b]
                       /\ UNCHANGED calls
ResultOk(t, ok, b) == calls[t].state = "fetched" /\ ok = calls[t].ok /\ (ok => b = calls[t].b)
GetEnd(s, ok, b) == /\ doing.op = "get" /\ doing.slot = s /\ doing' = Idle
                    /\ (IF holds[s] = -1 THEN ok /\ b = local[s] ELSE holds[s] > 0 /\ ResultOk(holds[s], ok, b)) = TRUE
                    /\ UNCHANGED <<holds, local, calls>>
ReadyEnd(s, yes) == /\ doing.op = "ready" /\ doing.slot = s /\ doing' = Idle
                    /\ holds[s] # 0 /\ yes = (holds[s] = -1 \/ calls[holds[s]].state # "open")
                    /\ UNCHANGED <<holds, local, calls>>
DropEnd(s) == doing.op = "drop" /\ doing.slot = s /\ doing' = Idle /\ holds' = [holds EXCEPT ![s] = 0] /\ UNCHANGED <<local, calls>>
\* What the other variable held is in this one now
MoveEnd(to, from) == /\ doing.op = "move" /\ doing.slot = to /\ doing' = Idle /\ to # from
                     /\ holds' = [holds EXCEPT ![to] = holds[from], ![from] = 0] /\ local' = [local EXCEPT ![to] = local[from]] /\ UNCHANGED calls
\* A call that is awaited at once
NowStart == doing = Idle /\ doing' = [op |-> "now", slot |-> 0] /\ UNCHANGED <<holds, local, calls>>
NowSent(t) == doing.op = "now" /\ t = Len(calls) + 1 /\ calls' = Append(calls, [state |-> "open", ok |-> FALSE, b |-> <<>>]) /\ UNCHANGED <<holds, local, doing>>
NowEnd(ok, b) == doing.op = "now" /\ calls # <<>> /\ (ResultOk(Len(calls), ok, b)) = TRUE /\ doing' = Idle /\ UNCHANGED <<holds, local, calls>>
=============================================================================
