------------------------------ MODULE MC_Objects ------------------------------
(* Objects of a small class after any history of up to N messages: the effect of a message in other words.             *)
EXTENDS Objects, TLC
CONSTANT N
VARIABLES obj, n
A == <<97>>
AB == <<97, 98>>
C == <<99>>
D == <<100>>
Z == <<122>>
Num(i) == NumOf(<<48 + i>>)
Sub == SObj(<< <<A, SInt("i32"), None0>>, <<C, SOpt(SInt("i32")), None0>> >>)
Sch == SObj(<< <<A, SInt("i32"), Num(3)>>, <<AB, SVec(SInt("i32")), None0>>, <<C, SMap(Sub), None0>>, <<D, SOpt(Sub), None0>> >>)
Obj(ps) == [t |-> "obj", v |-> ps]
Arr(xs) == [t |-> "arr", v |-> xs]
Nil == [t |-> "null"]
Subs == {Obj(<<>>), Obj(<< <<A, Num(1)>> >>), Obj(<< <<C, Nil>> >>), Obj(<< <<C, Num(2)>>, <<Z, Num(9)>> >>), Obj(<< <<A, Num(4)>>, <<A, Num(5)>> >>)}
Pairs == {<<A, Num(0)>>, <<A, Num(1)>>, <<Z, Num(7)>>}
    \cup {<<AB, x>> : x \in {Arr(<<>>), Arr(<<Num(1)>>), Arr(<<Num(2), Num(2)>>)}}
    \cup {<<C, Obj(<<>>)>>} \cup {<<C, Obj(<< <<k, x>> >>)>> : k \in {A, AB}, x \in Subs} \cup {<<C, Obj(<< <<A, Obj(<< <<A, Num(6)>> >>)>>, <<AB, Obj(<<>>)>> >>)>>}
    \cup {<<D, x>> : x \in {Nil} \cup Subs}
Msgs == {<<>>} \cup {<<p>> : p \in Pairs} \cup (Pairs \X Pairs)
Init == obj = Default(Sch) /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E m \in Msgs : obj' = Update(Sch, obj, Obj(m))
Spec == Init /\ [][Next /\ UNCHANGED ioVars]_<<obj, n>> 
InitAll == Init /\ IoInit
SpecAll == InitAll /\ [][Next /\ UNCHANGED ioVars]_<<obj, n>>
Member(o, k) == o.v[Find(o.v, k)][2]
Names(m) == {m[i][1] : i \in 1..Len(m)}
\* the members not contained stay, the order of different ones does not matter, one not known has no effect
Frame == \A m \in Msgs : \A k \in {A, AB, C, D} \ Names(m) : Member(Update(Sch, obj, Obj(m)), k) = Member(obj, k)
Order == \A p, q \in Pairs : p[1] # q[1] => Update(Sch, obj, Obj(<<p, q>>)) = Update(Sch, obj, Obj(<<q, p>>))
Unknown == \A m \in Msgs : Update(Sch, obj, Obj(m)) = Update(Sch, obj, Obj(SelectSeq(m, LAMBDA p : p[1] # Z)))
\* a list has the elements received, a map the keys received
Sizes == \A m \in Msgs : LET u == Update(Sch, obj, Obj(m))
                         IN /\ (AB \in Names(m) => Len(Member(u, AB).v) = Len(m[IF m[Len(m)][1] = AB THEN Len(m) ELSE 1][2].v))
                            /\ (C \in Names(m) => LET last == m[IF m[Len(m)][1] = C THEN Len(m) ELSE 1][2]
                                                  IN Names(Member(u, C).v) = Names(last.v) /\ Len(Member(u, C).v) = Cardinality(Names(last.v)))
Shape == Len(obj.v) = 4 /\ \A i \in 1..4 : obj.v[i][1] = Sch.ms[i][1]
Twice == \A m \in Msgs : Len(m) = 1 => Update(Sch, Update(Sch, obj, Obj(m)), Obj(m)) = Update(Sch, obj, Obj(m))
=============================================================================
