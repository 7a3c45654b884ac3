------------------------------- MODULE Versions --------------------------------
(* A page whose versions 0, 1, 2... are put in place one after another while readers request it: a request gets a       *)
(* version that was in place at some time during the request, and readers do not go back.                               *)
EXTENDS Naturals, Integers
CONSTANTS Readers
VARIABLES done, begun,     \* the latest version put in place, and the latest one being put in place
          asked,           \* for each reader, the oldest version its request can get (-1 if there is none)
          seen             \* for each reader, the latest version it got
vvars == <<done, begun, asked, seen>>
VInit == done = -1 /\ begun = -1 /\ asked = [r \in Readers |-> -1] /\ seen = [r \in Readers |-> -1]
PutStart(v) == v = begun + 1 /\ begun = done /\ begun' = v /\ UNCHANGED <<done, asked, seen>>
PutEnd(v) == v = begun /\ v = done + 1 /\ done' = v /\ UNCHANGED <<begun, asked, seen>>
AskStart(r) == asked[r] = -1 /\ done >= 0 /\ asked' = [asked EXCEPT ![r] = IF seen[r] > done THEN seen[r] ELSE done] /\ UNCHANGED <<done, begun, seen>>
AskEnd(r, v) == asked[r] >= 0 /\ v >= asked[r] /\ v <= begun /\ asked' = [asked EXCEPT ![r] = -1] /\ seen' = [seen EXCEPT ![r] = v] /\ UNCHANGED <<done, begun>>
=============================================================================
