------------------------------ MODULE MC_JsForms ------------------------------
(* How forms are made: each parameter has a getter that reads its fields when the button is pressed; getters of classes *)
(* fill an instance using the getters of members.  What the button does continues with the response of its own call.    *)
EXTENDS JsForms
CONSTANTS MostForms, MostCalls, Bug
VARIABLES dom,      \* for each form [fields |-> values, getters |-> sequence of getters, text]
          waiting,  \* [q, f] of calls waiting
          counter, wrong
mcvars == <<api, stage, calls, used, forms, origin, shown, dom, waiting, counter, wrong>>
nF == <<102>>  nG == <<103>>  nP == <<112>>  nS == <<115>>  nX == <<120>>  nL == <<108>>  nPoint == <<80>>
Types == << <<nPoint, << <<nL, [k |-> "arr", of |-> [k |-> "num"]]>>, <<nX, [k |-> "num"]>>, <<nS, [k |-> "bool"]>> >> >> >>
Param(n, t) == [n |-> n, t |-> t, o |-> FALSE]
Api == [node |-> FALSE, base |-> <<47>>, service |-> <<>>, types |-> Types,
        methods |-> <<[n |-> nF, ps |-> <<Param(nX, [k |-> "num"]), Param(nP, [k |-> "cls", n |-> nPoint]), Param(nS, [k |-> "map"])>>],
                      [n |-> nG, ps |-> <<Param(nX, [k |-> "num"])>>]>>]
Choices(kind) == CASE kind = "num" -> {[k |-> "num", b |-> <<49>>]} [] kind = "str" -> {[k |-> "str", b |-> <<97>>]} [] kind = "bool" -> {[k |-> "bool", v |-> TRUE]}
Init == api = Api /\ stage = "ready" /\ calls = <<>> /\ used = {} /\ forms = <<>> /\ origin = <<>> /\ shown = <<>> /\ dom = <<>> /\ waiting = {} /\ counter = 0 /\ wrong = FALSE

\* A getter is <<"field", i>>, <<"empty", kind>> or <<"inst", class, sequence of <<name, getter>> >>; made from the type, i is the number of fields made before
RECURSIVE Getter(_, _), Fields(_, _), Read(_, _), JsonOf(_)
Getter(t, i) == CASE t.k \in {"num", "str", "bool"} -> [g |-> "field", i |-> i + 1]
                  [] t.k \in {"arr", "map"} -> [g |-> "empty", k |-> t.k]
                  [] t.k = "cls" -> LET ms == At1(Types, t.n) IN [g |-> "inst", n |-> t.n, v |-> [j \in 1..Len(ms) |-> <<ms[j][1], Getter(ms[j][2], i + Fields(ms, j - 1))>>]]
Fields(ms, n) == IF n = 0 THEN 0 ELSE Fields(ms, n - 1) + Len(FieldsOf(ms[n][2]))
Getters(m) == LET ps == MethodOf(m).ps IN [j \in 1..Len(ps) |-> Getter(ps[j].t, Fields([k \in 1..Len(ps) |-> <<ps[k].n, ps[k].t>>], j - 1))]
Read(g, fields) == CASE g.g = "field" -> fields[g.i]
                     [] g.g = "empty" -> [k |-> g.k, v |-> <<>>]
                     [] g.g = "inst" -> [k |-> "inst", n |-> g.n, v |-> [j \in 1..Len(g.v) |-> <<g.v[j][1], Read(IF Bug = "first" /\ g.v[j][2].g = "field" THEN [g |-> "field", i |-> 1] ELSE g.v[j][2], fields)>>]]
JsonOf(x) == CASE x.k = "num" -> NumberOf(x.b) [] x.k = "str" -> [t |-> "str", v |-> x.b] [] x.k = "bool" -> [t |-> "bool", v |-> x.v]
               [] x.k = "arr" -> [t |-> "arr", v |-> <<>>] [] x.k = "map" -> [t |-> "obj", v |-> <<>>]
               [] x.k = "inst" -> [t |-> "obj", v |-> [i \in 1..Len(x.v) |-> <<x.v[i][1], JsonOf(x.v[i][2])>>]]
MakeForm == /\ ~wrong /\ Len(forms) < MostForms /\ \E m \in {nF, nG} :
                 /\ Form(m, <<Kinds(m)>>)
                 /\ dom' = Append(dom, [fields |-> [i \in 1..Len(Kinds(m)) |-> Unset(Kinds(m)[i])], old |-> [i \in 1..Len(Kinds(m)) |-> Unset(Kinds(m)[i])], getters |-> Getters(m), text |-> <<>>])
            /\ UNCHANGED <<waiting, counter, wrong>>
Edit == /\ ~wrong /\ \E f \in 1..Len(forms) : \E i \in 1..Len(forms[f].kinds) : \E v \in Choices(forms[f].kinds[i]) :
              Enter(f, i, v) /\ dom' = [dom EXCEPT ![f].fields[i] = v]
        /\ UNCHANGED <<waiting, counter, wrong>>
\* The button: it reads the fields, calls and waits
Push == /\ ~wrong /\ Len(calls) < MostCalls /\ \E f \in 1..Len(forms) :
           LET m == forms[f].m
               source == IF Bug = "stale" THEN dom[f].old ELSE dom[f].fields
               args == [j \in 1..Len(dom[f].getters) |-> Read(dom[f].getters[j], source)]
               j == [t |-> "obj", v |-> << <<sJsonrpc, [t |-> "str", v |-> sTwo]>>, <<sId, NumberOf(<<48 + counter>>)>>, <<sMethod, [t |-> "str", v |-> m]>>,
                                            <<sParams, [t |-> "obj", v |-> [i \in 1..Len(args) |-> <<MethodOf(m).ps[i].n, JsonOf(args[i])>>]]>> >>]
               c == Len(calls) + 1
               call == [m |-> m, a |-> Arguments(m, forms[f].vals), st |-> "sent", q |-> c, kind |-> "", b |-> <<>>]
           IN /\ calls' = Append(calls, call) /\ origin' = Append(origin, f)
              /\ wrong' = ~(Acceptable(call) /\ RequestRight(call, j)) /\ used' = used \cup {At1(j.v, sId)}
              /\ waiting' = waiting \cup {[q |-> c, f |-> IF Bug = "common" THEN Len(forms) ELSE f]} /\ counter' = counter + 1
              /\ UNCHANGED <<api, stage, forms, shown, dom>>
Answer == /\ ~wrong /\ \E w \in waiting, r \in {<<53>>, sNull} :
                /\ FRespond(w.q, "result", r) /\ waiting' = waiting \ {w}
                /\ dom' = (IF r = sNull THEN dom ELSE [dom EXCEPT ![w.f].text = r])
          /\ UNCHANGED <<counter, wrong>>
Next == MakeForm \/ Edit \/ Push \/ Answer
Spec == Init /\ [][Next]_mcvars
Right == ~wrong
Displays == \A f \in 1..Len(forms) : shown[f] = Anything \/ dom[f].text = shown[f]
=============================================================================
