------------------------------- MODULE StructIO -------------------------------
(* The two interfaces all structured formats implement.                                                                *)
(* Writer: a value is put together by calls; building is the stack of unfinished containers, built the finished value. *)
(* Reader: a cursor over a value; todo is the stack of what remains to be read in the containers entered so far.       *)
(* Written leaves are [t |-> "int", t10 (decimal text)], [t |-> "real", neg, lo, x, hi], "str", "bool", "null".         *)
EXTENDS Dec
VARIABLES building, built, todo, saved
ioVars == <<building, built, todo, saved>>

None == [t |-> "none"]
IoInit == building = <<>> /\ built = None /\ todo = <<>> /\ saved = <<>>

\* ---- writing
Top1(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
PutInto(s, v) ==   \* the value goes into the innermost container
    LET f == Top1(s)
    IN IF f.t = "arr" THEN Append(Pop(s), [f EXCEPT !.v = Append(@, v)])
       ELSE Append(Pop(s), [f EXCEPT !.v = Append(@, <<f.name, v>>)])
Put(v) == IF building = <<>> THEN built' = v /\ building' = building
          ELSE building' = PutInto(building, v) /\ built' = built
Open(kind) == building' = Append(building, [t |-> kind, v |-> <<>>, name |-> <<>>]) /\ built' = built
MemberName(n) == building # <<>> /\ Top1(building).t = "obj"
                 /\ building' = Append(Pop(building), [Top1(building) EXCEPT !.name = n]) /\ built' = built
Close(kind) == /\ building # <<>> /\ Top1(building).t = kind
               /\ LET v == [t |-> kind, v |-> Top1(building).v]
                      rest == Pop(building)
                  IN IF rest = <<>> THEN built' = v /\ building' = <<>> ELSE building' = PutInto(rest, v) /\ built' = built

\* What was read back denotes what was written
RECURSIVE Same(_, _)
Same(w, r) ==
    CASE w.t = "int" -> LET n == WholeNumber(w.v) IN r.t = "num" /\ r.int /\ n.v = r.v /\ (r.v.d # <<>> => n.neg = r.neg)
      [] w.t = "real" -> r.t = "num" /\ (r.v.d # <<>> => w.neg = r.neg) /\ Nearest(r.v, w.lo, w.x, w.hi)
      [] w.t = "arr" -> r.t = "arr" /\ Len(w.v) = Len(r.v) /\ \A i \in 1..Len(w.v) : Same(w.v[i], r.v[i])
      [] w.t = "obj" -> r.t = "obj" /\ Len(w.v) = Len(r.v) /\ \A i \in 1..Len(w.v) : w.v[i][1] = r.v[i][1] /\ Same(w.v[i][2], r.v[i][2])
      [] OTHER -> w = r

\* ---- reading: todo is a stack of [k, left]: left values (for objects <<name, value>> pairs), the first one is next
Head1 == LET f == Top1(todo) IN IF f.k = "obj" THEN f.left[1][2] ELSE f.left[1]
HasHead == todo # <<>> /\ Top1(todo).left # <<>> /\ (Top1(todo).k = "obj" => Top1(todo).named)
Advanced(s) == Append(Pop(s), [Top1(s) EXCEPT !.left = Tail(@), !.named = FALSE])
Advance == todo' = Advanced(todo)
StartReading(v) == todo' = <<[k |-> "root", left |-> <<v>>, named |-> FALSE]>> /\ saved' = <<>>
ReadLeaf(ok(_)) == HasHead /\ ok(Head1) /\ Advance
Enter(kind) == HasHead /\ Head1.t = kind
               /\ todo' = Append(Advanced(todo), [k |-> kind, left |-> Head1.v, named |-> FALSE])
NextElement(more) == todo # <<>> /\ Top1(todo).k = "arr" /\ more = (Top1(todo).left # <<>>) /\ todo' = todo
NextMember(name) == todo # <<>> /\ Top1(todo).k = "obj" /\ Top1(todo).left # <<>> /\ ~Top1(todo).named /\ Top1(todo).left[1][1] = name
                    /\ todo' = Append(Pop(todo), [Top1(todo) EXCEPT !.named = TRUE])
Leave(kind) == todo # <<>> /\ Top1(todo).k = kind /\ Top1(todo).left = <<>> /\ todo' = Pop(todo)
Store == saved' = Append(saved, todo) /\ todo' = todo
Restore == saved # <<>> /\ todo' = Top1(saved) /\ saved' = Pop(saved)
Finished == Len(todo) = 1 /\ todo[1].left = <<>>
=============================================================================
