---------------------------- MODULE MC_Description ----------------------------
(* All small services: a description written from the specification is right for its own service and for no other one   *)
(* that differs in more than what the format cannot express, and each path it lists leads to the method described.      *)
EXTENDS Description
CONSTANTS MaxNodes, NameSet, Flat
VARIABLES root, other
types == <<<<[name |-> <<120>>, type |-> [k |-> "num"]]>>,
           <<[name |-> <<120>>, type |-> [k |-> "arr", of |-> [k |-> "obj", i |-> 1]]], [name |-> <<121>>, type |-> [k |-> "opt", of |-> [k |-> "obj", i |-> 2]]]>>>>
names == <<<<65>>, <<66>>>>
NamesUsed == IF NameSet = "plain" THEN {<<97>>, <<98>>} ELSE {<<97>>, <<98>>, <<97, 46, 98>>}
TypesUsed == {[k |-> "num"], [k |-> "arr", of |-> [k |-> "opt", of |-> [k |-> "obj", i |-> 1]]], [k |-> "map", of |-> [k |-> "obj", i |-> 2]], [k |-> "obj", i |-> 2]}
MethodsUsed == {[doc |-> <<>>, rdoc |-> <<>>, params |-> IF p = "none" THEN <<>> ELSE <<[name |-> <<112>>, type |-> t, opt |-> TRUE, doc |-> <<>>]>>, ret |-> r]
                : p \in {"none", "one"}, t \in TypesUsed, r \in {<<>>, <<[k |-> "str"]>>}}

\* The description as a JSON value, written as the code does it
RECURSIVE TypeList(_, _)
WrittenMethod(m) == [t |-> "obj", v |-> <<<<sDocLines, [t |-> "arr", v |-> <<>>]>>,
    <<sParams, [t |-> "obj", v |-> [i \in 1..Len(m.params) |-> <<m.params[i].name, [t |-> "obj", v |->
        <<<<sDefOrder, Num(i)>>, <<sDocLines, [t |-> "arr", v |-> <<>>]>>, <<sType, TypeText(m.params[i].type, names)>>, <<sOptional, [t |-> "bool", v |-> m.params[i].opt]>>>>]>>]]>>,
    <<sRetInfo, [t |-> "obj", v |-> <<<<sDocLines, [t |-> "arr", v |-> <<>>]>>, <<sType, IF m.ret = <<>> THEN [t |-> "null"] ELSE TypeText(m.ret[1], names)>>>>]>>>>]
WrittenType(i) == [t |-> "obj", v |-> [j \in 1..Len(types[i]) |-> <<types[i][j].name, TypeText(types[i][j].type, names)>>]]
\* Depth first, each once (or again and again in the flat variant)
TypeList(todo, acc) == IF todo = {} THEN acc ELSE LET i == CHOOSE i \in todo : TRUE IN TypeList(todo \ {i}, Append(acc, <<names[i], WrittenType(i)>>))
Direct(ms) == UNION {UNION {Inside(t) : t \in TypesOf(ms[i].m)} : i \in 1..Len(ms)}
Written(n) == LET ms == Methods(n, <<>>) IN
    [t |-> "obj", v |-> <<<<sType, Text(sWsp)>>, <<sVersion, Text(s10)>>, <<sServicename, Text(<<>>)>>, <<sUrl, Text(<<>>)>>,
      <<sTypes, [t |-> "obj", v |-> TypeList(IF Flat THEN Direct(ms) ELSE Listed(ms, types, TRUE), <<>>)]>>,
      <<sMethods, [t |-> "obj", v |-> [i \in 1..Len(ms) |-> <<ms[i].path, WrittenMethod(ms[i].m)>>]]>>>>]

RECURSIVE Grown(_)
Grown(n) == IF n.t = "m" THEN {}
            ELSE {[n EXCEPT !.kids = Append(@, [name |-> name, node |-> k])] : name \in NamesUsed \ {n.kids[i].name : i \in 1..Len(n.kids)},
                      k \in {[t |-> "m", m |-> m] : m \in MethodsUsed} \cup {[t |-> "o", kids |-> <<>>]}}
                 \cup UNION {{[n EXCEPT !.kids[i].node = g] : g \in Grown(n.kids[i].node)} : i \in 1..Len(n.kids)}
RECURSIVE Size(_), SizeFrom(_, _)
Size(n) == IF n.t = "m" THEN 1 ELSE 1 + SizeFrom(n, 1)
SizeFrom(n, i) == IF i > Len(n.kids) THEN 0 ELSE Size(n.kids[i].node) + SizeFrom(n, i + 1)
MInit == root = [t |-> "o", kids |-> <<>>] /\ other = root
MNext == Size(root) < MaxNodes /\ root' \in Grown(root) /\ other' = root
MSpec == MInit /\ [][MNext]_<<root, other>>

\* What the format tells about a service: the methods under their paths
Said(n) == {<<ms.path, WrittenMethod(ms.m)>> : ms \in {Methods(n, <<>>)[i] : i \in 1..Len(Methods(n, <<>>))}}
RightForItself == Right(Written(root), root, types, names, <<>>, <<>>)
RightForNoOther == Said(root) # Said(other) => ~Right(Written(other), root, types, names, <<>>, <<>>)
\* A path as the code follows it: names between dots
RECURSIVE Cut(_, _, _)
Cut(p, i, acc) == IF i > Len(p) THEN <<acc>> ELSE IF p[i] = 46 THEN <<acc>> \o Cut(p, i + 1, <<>>) ELSE Cut(p, i + 1, Append(acc, p[i]))
RECURSIVE Go(_, _)
Go(n, ns) == IF ns = <<>> THEN n
             ELSE IF n.t = "m" \/ ~\E i \in 1..Len(n.kids) : n.kids[i].name = ns[1] THEN [t |-> "none"]
             ELSE Go(n.kids[CHOOSE i \in 1..Len(n.kids) : n.kids[i].name = ns[1]].node, Tail(ns))
PathsLead == LET ms == Methods(root, <<>>) IN \A i \in 1..Len(ms) : LET g == Go(root, Cut(ms[i].path, 1, <<>>)) IN g.t = "m" /\ g.m = ms[i].m
=============================================================================
