-------------------------------- MODULE MC_Json --------------------------------
(* A JSON writer as a transition system producing bytes call by call, next to the abstract writer of StructIO, and the *)
(* way a reader moves past a value it does not want.  Every text the writer can finish must be a JSON text denoting    *)
(* what was written, and skipping must end where the value ends.  Variant "good" is the design, the others are broken. *)
EXTENDS StructIO, JsonText, TLC, Json
CONSTANTS Variant, MaxValues, MaxDepth, Emit
VARIABLES out, nested, values
vars == <<out, nested, values, building, built, todo, saved>>

Texts == {<<>>, <<34>>, <<92>>, <<125>>, <<93, 44>>, <<97, 92, 34>>}
Leaves == {[t |-> "str", v |-> s] : s \in Texts} \cup {[t |-> "null"], [t |-> "bool", v |-> TRUE]}
          \cup {[t |-> "int", v |-> s] : s \in {<<45, 49, 48>>, <<48>>}}
Names == {<<97>>, <<34, 123>>}

RECURSIVE Escaped(_)
Escaped(s) == IF s = <<>> THEN <<>>
              ELSE (IF Variant # "noescape" /\ s[1] \in {34, 92} THEN <<92, s[1]>> ELSE <<s[1]>>) \o Escaped(Tail(s))
Quoted(s) == <<34>> \o Escaped(s) \o <<34>>
Printed(v) == CASE v.t = "str" -> Quoted(v.v)
                [] v.t = "null" -> sNull
                [] v.t = "bool" -> IF v.v THEN sTrue ELSE sFalse
                [] OTHER -> v.v
Blanks == IF Emit THEN {<<>>, <<32>>} ELSE {<<>>}

Free == IF nested = <<>> THEN built = None ELSE (nested[Len(nested)].k = "obj" => nested[Len(nested)].named)
Sep == IF nested # <<>> /\ nested[Len(nested)].n > 0 /\ Variant # "nosep" THEN <<44>> ELSE <<>>
Counted(s) == IF s = <<>> THEN s ELSE Append(Pop(s), [Top1(s) EXCEPT !.n = @ + 1, !.named = FALSE])
Before == IF nested # <<>> /\ nested[Len(nested)].k = "arr" THEN Sep ELSE <<>>

Leaf(v, w) == /\ Free /\ values < MaxValues
              /\ Put(v) /\ out' = out \o Before \o Printed(v) \o w
              /\ nested' = Counted(nested) /\ values' = values + 1 /\ UNCHANGED <<todo, saved>>
Begin(k, w) == /\ Free /\ values < MaxValues /\ Len(nested) < MaxDepth
            /\ Open(k) /\ out' = out \o Before \o (IF k = "arr" THEN <<91>> ELSE <<123>>) \o w
            /\ nested' = Append(Counted(nested), [k |-> k, n |-> 0, named |-> FALSE]) /\ values' = values + 1 /\ UNCHANGED <<todo, saved>>
Member(name, w) == /\ nested # <<>> /\ nested[Len(nested)].k = "obj" /\ ~nested[Len(nested)].named /\ values < MaxValues
                /\ MemberName(name) /\ out' = out \o Sep \o Quoted(name) \o <<58>> \o w
                /\ nested' = [nested EXCEPT ![Len(nested)].named = TRUE] /\ UNCHANGED <<values, todo, saved>>
End(w) == /\ nested # <<>> /\ ~nested[Len(nested)].named
       /\ Close(nested[Len(nested)].k) /\ out' = out \o (IF nested[Len(nested)].k = "arr" THEN <<93>> ELSE <<125>>) \o w
       /\ nested' = Pop(nested) /\ UNCHANGED <<values, todo, saved>>

Init == IoInit /\ out = <<>> /\ nested = <<>> /\ values = 0
Next == \E w \in Blanks : (\E v \in Leaves : Leaf(v, w)) \/ (\E k \in {"arr", "obj"} : Begin(k, w)) \/ (\E n \in Names : Member(n, w)) \/ End(w)
Spec == Init /\ [][Next]_vars

Complete == nested = <<>> /\ built # None
\* Moving past the value at i by counting brackets outside of strings
RECURSIVE SkipString(_, _), SkipNested(_, _, _), SkipPlain(_, _)
SkipString(b, i) == IF i > Len(b) THEN i ELSE IF b[i] = 92 THEN SkipString(b, i + 2) ELSE IF b[i] = 34 THEN i + 1 ELSE SkipString(b, i + 1)
SkipNested(b, i, depth) ==
    IF i > Len(b) THEN i
    ELSE IF b[i] = 34 /\ Variant # "skipraw" THEN SkipNested(b, SkipString(b, i + 1), depth)
    ELSE IF b[i] \in {91, 123} THEN SkipNested(b, i + 1, depth + 1)
    ELSE IF b[i] \in {93, 125} THEN (IF depth = 1 THEN i + 1 ELSE SkipNested(b, i + 1, depth - 1))
    ELSE SkipNested(b, i + 1, depth)
SkipPlain(b, i) == IF i > Len(b) \/ b[i] \in {44, 93, 125} \cup Blank THEN i ELSE SkipPlain(b, i + 1)
Skip(b, i0) == LET i == SkipBlank(b, i0) IN IF b[i] = 34 THEN SkipString(b, i + 1) ELSE IF b[i] \in {91, 123} THEN SkipNested(b, i, 0) ELSE SkipPlain(b, i)

WrittenDenotes == Complete => LET p == Parse(out) IN p.ok /\ Same(built, p.v)
SkipEnds == Complete => Skip(out, 1) = Value(out, 1).end
\* Nothing unfinished is taken for a text (numbers apart, which any prefix of digits is)
PrefixesInvalid == ~Complete => ~Parse(out).ok
Report == (Emit /\ Complete) => PrintT(<<"H", ToJson(out)>>)
=============================================================================
