-------------------------------- MODULE JsForms --------------------------------
(* Forms the client makes for methods: fields for what they take, a button to call them and a place for the result.    *)
EXTENDS JsClient
VARIABLES forms,    \* [m: the method (<<>> if it's one of the whole interface and it's not known which), kinds, vals, batch]
          origin,   \* which form each call was made by, 0 if by none
          shown     \* what each form displays, Anything if it isn't determined
jfvars == <<api, stage, calls, used, forms, origin, shown>>
Anything == <<-1>>
FormsInit == JsInit /\ forms = <<>> /\ origin = <<>> /\ shown = <<>>

\* The fields values of a type are entered into (those of arrays and of objects with any keys are left empty)
RECURSIVE FieldsOf(_), FieldsOfAll(_, _)
FieldsOf(t) == CASE t.k \in {"num", "str", "bool"} -> <<t.k>>
                 [] t.k = "cls" -> LET ms == At1(api.types, t.n) IN FieldsOfAll([i \in 1..Len(ms) |-> ms[i][2]], 1)
                 [] OTHER -> <<>>
FieldsOfAll(ts, i) == IF i > Len(ts) THEN <<>> ELSE FieldsOf(ts[i]) \o FieldsOfAll(ts, i + 1)
TypesOf(m) == LET ps == MethodOf(m).ps IN [i \in 1..Len(ps) |-> ps[i].t]
RECURSIVE Built(_, _)
Built(t, vals) == CASE t.k \in {"num", "str", "bool"} -> vals[1]
                    [] t.k = "arr" -> [k |-> "arr", v |-> <<>>]
                    [] t.k = "map" -> [k |-> "map", v |-> <<>>]
                    [] t.k = "cls" -> LET ms == At1(api.types, t.n)
                                          before(i) == Len(FieldsOfAll([j \in 1..(i - 1) |-> ms[j][2]], 1))
                                      IN [k |-> "inst", n |-> t.n,
                                          v |-> [i \in 1..Len(ms) |-> <<ms[i][1], Built(ms[i][2], SubSeq(vals, before(i) + 1, before(i) + Len(FieldsOf(ms[i][2]))))>>]]
Arguments(m, vals) == LET ts == TypesOf(m)
                          before(i) == Len(FieldsOfAll([j \in 1..(i - 1) |-> ts[j]], 1))
                      IN [i \in 1..Len(ts) |-> Built(ts[i], SubSeq(vals, before(i) + 1, before(i) + Len(FieldsOf(ts[i]))))]
Kinds(m) == FieldsOfAll(TypesOf(m), 1)
Unset(kind) == CASE kind = "num" -> [k |-> "num", b |-> <<55>>] [] kind = "str" -> [k |-> "str", b |-> <<>>] [] kind = "bool" -> [k |-> "bool", v |-> FALSE]

FLoad(a) == Load(a) /\ forms' = <<>> /\ shown' = <<>> /\ UNCHANGED origin
FCall(c, m, a) == Call(c, m, a) /\ origin' = Append(origin, 0) /\ UNCHANGED <<forms, shown>>
\* A form of a method, or those of all methods
Form(m, kinds) ==
    /\ stage = "ready"
    /\ IF m # <<>> THEN Len(kinds) = 1 /\ kinds[1] = Kinds(m)
       ELSE /\ Len(kinds) = Len(api.methods)
            /\ \A k \in {kinds[i] : i \in 1..Len(kinds)} : Cardinality({i \in 1..Len(kinds) : kinds[i] = k}) = Cardinality({i \in 1..Len(api.methods) : Kinds(api.methods[i].n) = k})
    /\ forms' = forms \o [i \in 1..Len(kinds) |-> [m |-> m, kinds |-> kinds[i], vals |-> [j \in 1..Len(kinds[i]) |-> Unset(kinds[i][j])], batch |-> Len(forms)]]
    /\ shown' = shown \o [i \in 1..Len(kinds) |-> <<>>]
    /\ UNCHANGED <<api, stage, calls, used, origin>>
Enter(f, i, v) == /\ v.k = forms[f].kinds[i] /\ forms' = [forms EXCEPT ![f].vals[i] = v] /\ UNCHANGED <<api, stage, calls, used, origin, shown>>
Press(f) == /\ stage = "ready"
            /\ \E i \in 1..Len(api.methods) :
                 LET m == api.methods[i].n
                 IN /\ IF forms[f].m # <<>> THEN m = forms[f].m
                       ELSE Kinds(m) = forms[f].kinds /\ \A g \in 1..Len(forms) : forms[g].batch = forms[f].batch => forms[g].m # m
                    /\ calls' = Append(calls, [m |-> m, a |-> Arguments(m, forms[f].vals), st |-> "made", q |-> 0, kind |-> "", b |-> <<>>])
                    /\ forms' = [forms EXCEPT ![f].m = m]
            /\ origin' = Append(origin, f) /\ UNCHANGED <<api, stage, used, shown>>
Displayed(b, before) == LET r == Parse(b).v IN CASE r.t = "null" -> before [] r.t = "str" -> r.v [] r.t \in {"num", "bool"} -> b [] OTHER -> Anything
FRespond(q, kind, b) ==
    \E c \in 1..Len(calls) :
      /\ calls[c].st = "sent" /\ calls[c].q = q
      /\ IF origin[c] = 0 THEN calls' = [calls EXCEPT ![c].st = "answered", ![c].kind = kind, ![c].b = b] /\ UNCHANGED shown
         ELSE /\ calls' = [calls EXCEPT ![c].st = "settled"]
              /\ shown' = [shown EXCEPT ![origin[c]] = IF kind = "result" THEN Displayed(b, @) ELSE Anything]
      /\ UNCHANGED <<api, stage, used, forms, origin>>
Screen(texts) == Len(texts) = Len(forms) /\ (\A f \in 1..Len(forms) : shown[f] = Anything \/ texts[f] = shown[f]) /\ UNCHANGED jfvars
FSettled(c, ok, b) == origin[c] = 0 /\ Settled(c, ok, b) /\ UNCHANGED <<forms, origin, shown>>
=============================================================================
