------------------------------- MODULE MC_Client -------------------------------
(* The search for a response as the transports do it: responses that were identified when looking for other ones are   *)
(* stored, what follows a message read is kept, polling reads only what has already arrived.  Every order of responses,  *)
(* arrivals in units of half a message, reads of any size and any order of polls and retrievals.                         *)
EXTENDS Clients, FiniteSets
CONSTANTS Most, ReadMost, Bug
VARIABLES stored,    \* requests whose responses are stored
          readTo,    \* how much of the stream was read
          scan,      \* the search looks at what was read ("scan"), or wants to read more ("read"); "" is no search
          right      \* nothing wrong was told to the user so far
mcvars == <<ids, msgs, arrived, closed, collected, base, doing, stored, readTo, scan, right>>
Size == 2
Init == /\ ids = [i \in 1..Most |-> i] /\ msgs = <<>> /\ arrived = 0 /\ closed = FALSE /\ collected = {} /\ base = 0 /\ doing = Idle
        /\ stored = {} /\ readTo = 0 /\ scan = "" /\ right = TRUE
User == <<stored, readTo, scan, right>>
Server == \/ \E t \in 1..Most : Respond(t, "ok", <<t>>, Size) /\ UNCHANGED User
          \/ Arrive(1) /\ UNCHANGED User
\* The end of the operation, telling what
Tell(yes, b) == /\ right' = (right /\ IF doing.op = "poll" THEN yes = Complete(doing.t) ELSE GotRight(doing.t, yes, b))
                /\ collected' = (IF doing.op = "get" THEN collected \union {doing.t} ELSE collected)
                /\ doing' = Idle /\ scan' = ""
Go == /\ doing = Idle /\ \E op \in {"poll", "get"}, t \in 1..Most : t \notin collected /\ doing' = [op |-> op, t |-> t]
      /\ scan' = IF doing'.t \in stored THEN "stored" ELSE IF Bug = "noleft" THEN "read" ELSE "scan"
      /\ UNCHANGED <<ids, msgs, arrived, closed, collected, base, stored, readTo, right>>
FromStore == /\ scan = "stored" /\ Tell(TRUE, <<doing.t>>)
             /\ stored' = (IF doing.op = "get" THEN stored \ {doing.t} ELSE stored) /\ UNCHANGED <<ids, msgs, arrived, closed, base, readTo>>
Scan == /\ scan = "scan"
        /\ IF readTo - base < Size THEN IF Bug = "readon" /\ readTo > base THEN Tell(FALSE, <<>>) /\ UNCHANGED <<base, stored, readTo>>
                                        ELSE scan' = "read" /\ UNCHANGED <<collected, base, doing, stored, right, readTo>>
           ELSE LET t == msgs[base \div Size + 1].t IN
                /\ base' = base + Size
                /\ stored' = (IF t # doing.t \/ (doing.op = "poll" /\ Bug # "forget") THEN stored \union {t} ELSE stored)
                /\ IF t = doing.t THEN Tell(TRUE, <<t>>) ELSE UNCHANGED <<collected, doing, scan, right>>
                /\ UNCHANGED readTo
        /\ UNCHANGED <<ids, msgs, arrived, closed>>
Read == /\ scan = "read"
        /\ IF arrived = readTo THEN doing.op = "poll" /\ Tell(FALSE, <<>>) /\ UNCHANGED readTo
           ELSE \E n \in 1..ReadMost : readTo + n <= arrived /\ readTo' = readTo + n /\ scan' = "scan" /\ UNCHANGED <<collected, doing, right>>
        /\ UNCHANGED <<ids, msgs, arrived, closed, base, stored>>
Next == Server \/ Go \/ FromStore \/ Scan \/ Read
Spec == Init /\ [][Next]_mcvars
Right == right
\* A search that waits for the server is one whose response has not arrived yet
Waits == (scan = "read" /\ doing.op = "get" /\ arrived = readTo) => ~Complete(doing.t)
\* Nothing is lost: what was consumed is stored or collected
Kept == \A i \in 1..(base \div Size) : msgs[i].t \in stored \union collected
=============================================================================
