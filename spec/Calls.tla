--------------------------------- MODULE Calls ---------------------------------
(* Calls of methods of a service through connections to its server, with any protocol.  A call that is asked through a  *)
(* connection is executed once, after those asked through it before, on the object and method it was asked of and with  *)
(* the arguments it was asked with, and gives what that execution gave.                                                  *)
EXTENDS Integers, Sequences

VARIABLES proto,      \* "json" | "form" | "bin8" ...
          conns,      \* connections: [queue, alive]; queue is the calls asked through it and not executed yet
          serving,    \* the connection the server is reading from (0 is none)
          calls       \* [c, m, s, a, may, done, r]; may means that it's allowed to be refused, r is what it gave if it's done, "throw" is an exception
cvars == <<proto, conns, serving, calls>>
Throw == [t |-> "throw"]
CallsInit == proto = "" /\ conns = <<>> /\ serving = 0 /\ calls = <<>>

\* Binary protocols don't report errors, the server closes the connection instead
ClosesOnError == proto \notin {"json", "form"}

Connect(c) == c = Len(conns) + 1 /\ conns' = Append(conns, [queue |-> <<>>, alive |-> TRUE]) /\ UNCHANGED <<proto, serving, calls>>
Ask(c, t, m, s, a, may) ==
    /\ c \in 1..Len(conns) /\ t = Len(calls) + 1
    /\ calls' = Append(calls, [c |-> c, m |-> m, s |-> s, a |-> a, may |-> may, done |-> FALSE, r |-> Throw])
    /\ conns' = [conns EXCEPT ![c].queue = Append(@, t)] /\ UNCHANGED <<proto, serving>>
Serve(c) == c \in 1..Len(conns) /\ conns[c].alive /\ serving' = c /\ UNCHANGED <<proto, conns, calls>>
ExecuteRight(m, s, a) ==
    /\ serving # 0 /\ conns[serving].alive /\ conns[serving].queue # <<>>
    /\ LET t == Head(conns[serving].queue) IN calls[t].m = m /\ calls[t].s = s /\ calls[t].a = a
Execute(m, s, a, r) ==
    /\ ExecuteRight(m, s, a)
    /\ LET t == Head(conns[serving].queue) IN
        /\ calls' = [calls EXCEPT ![t].done = TRUE, ![t].r = r]
    /\ conns' = [conns EXCEPT ![serving].queue = Tail(@)] /\ UNCHANGED <<proto, serving>>
\* Only a failure it can't report makes the server close the connection
Closed(c) ==
    /\ c = serving /\ conns[c].alive /\ ClosesOnError
    /\ \E t \in 1..Len(calls) : calls[t].c = c /\ calls[t].done /\ calls[t].r = Throw
    /\ conns' = [conns EXCEPT ![c].alive = FALSE] /\ UNCHANGED <<proto, serving, calls>>
\* A call gives what it gave to the server, or an error if it was an exception or there was nobody to execute it
AnswerRight(t, ok, r) ==
    IF calls[t].done THEN ok = (calls[t].r # Throw) /\ (ok => r = calls[t].r)
    ELSE ~ok /\ (calls[t].may \/ ~conns[calls[t].c].alive)
Answer(t, ok, r) ==
    /\ t \in 1..Len(calls) /\ (AnswerRight(t, ok, r)) = TRUE
    /\ conns' = [conns EXCEPT ![calls[t].c].queue = SelectSeq(@, LAMBDA x : x # t)] /\ UNCHANGED <<proto, serving, calls>>
\* It isn't ready before there is something to give
Ready(t, yes) == (yes => calls[t].done \/ ~conns[calls[t].c].alive) /\ UNCHANGED cvars
Quiet == (\A c \in 1..Len(conns) : conns[c].alive => conns[c].queue = <<>>) /\ UNCHANGED cvars
=============================================================================
