------------------------------- MODULE G_Futures -------------------------------
(* All sequences of a few operations on the variables, with what's needed to know which of them make sense. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Slots, Most
VARIABLES h, holds, answered, made
gvars == <<h, holds, answered, made>>
Init == h = <<>> /\ holds = [s \in Slots |-> 0] /\ answered = {} /\ made = 0
Did(op) == h' = Append(h, op)
Next == /\ Len(h) < Most
        /\ \/ \E s \in Slots, how \in {"ok", "error"} : holds[s] = 0 /\ made < 2 /\ Did(<<"call", s, how>>) /\ holds' = [holds EXCEPT ![s] = made + 1] /\ made' = made + 1 /\ UNCHANGED answered
           \/ \E s \in Slots : holds[s] # 0 /\ Did(<<"get", s>>) /\ answered' = answered \union {holds[s]} /\ UNCHANGED <<holds, made>>
           \/ \E s \in Slots : holds[s] # 0 /\ Did(<<"ready", s>>) /\ UNCHANGED <<holds, made, answered>>
           \/ \E s \in Slots : holds[s] # 0 /\ Did(<<"drop", s>>) /\ holds' = [holds EXCEPT ![s] = 0] /\ answered' = answered \union {holds[s]} /\ UNCHANGED made
           \/ \E s, o \in Slots : s # o /\ (holds[s] # 0 \/ holds[o] # 0) /\ made > 0 /\ Did(<<"move", s, o>>) /\ holds' = [holds EXCEPT ![s] = holds[o], ![o] = 0] /\ UNCHANGED <<made, answered>>
           \/ \E t \in 1..made : t \notin answered /\ Did(<<"answer", t>>) /\ answered' = answered \union {t} /\ UNCHANGED <<holds, made>>
Spec == Init /\ [][Next]_gvars
Report == Len(h) = Most => PrintT(<<"H", ToJson(h)>>)
=============================================================================
