------------------------------- MODULE MC_Tree -------------------------------
(* Every tree of up to MaxNodes nodes over some tricky names: the path of each node leads to that node and no other,    *)
(* every other string leads nowhere, also after parts were moved and put together.                                       *)
EXTENDS Tree
CONSTANTS MaxNodes, Sep, NameSet
VARIABLES made
SepBytes == CASE Sep = "dot" -> <<46>> [] Sep = "colons" -> <<58, 58>>
NamesUsed == CASE NameSet = "plain" -> {<<97>>, <<97, 58, 98>>, <<97, 98>>}
               [] NameSet = "separators" -> {<<97>>, <<98>>, <<97>> \o SepBytes \o <<98>>}
V == {"u", "w", "x"}
MInit == vars = [x \in {} |-> 0] /\ made = 0
MNext == \/ \E v \in V : made < MaxNodes /\ made' = made + 1 /\ (New(v, [t |-> "leaf", id |-> made, resp |-> 0]) \/ New(v, [t |-> "dyn", kids |-> <<>>, resp |-> 0])
                                                                \/ New(v, [t |-> "stat", tag |-> made, resp |-> 0]))
         \/ \E v, w \in DOMAIN vars : v # w /\ made' = made /\ \E name \in NamesUsed : Add(v, name, w) \/ Borrow(v, name, w)
         \/ \E v \in DOMAIN vars, w \in V : made' = made /\ Move(v, w)
MSpec == MInit /\ [][MNext]_<<vars, made>>
PathsLeadBack == \A v \in DOMAIN vars : LET u == Under(vars[v], <<>>, <<>>) IN
    /\ \A i \in 1..Len(u) : Found(vars[v], Joined(u[i].names, SepBytes), SepBytes) = {u[i].node}
    /\ \A i, j \in 1..Len(u) : i # j => Joined(u[i].names, SepBytes) # Joined(u[j].names, SepBytes)
\* A borrowed function has one place
OnePlace == \A v \in DOMAIN vars : Cardinality(Places(v)) <= 1
=============================================================================
