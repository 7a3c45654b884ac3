------------------------------ MODULE Description ------------------------------
(* What the JSON-WSP description of a service has to say.                                                               *)
(* A type is [k |-> "num"|"bool"|"str"] or [k |-> "arr"|"map"|"opt", of |-> type] or [k |-> "obj", i |-> index of a     *)
(* structured type]; a structured type is a sequence of [name, type]; its own name is names[i].                          *)
(* A method is [doc, params, ret, rdoc]; doc is a text ("" if empty), params a sequence of [name, type, opt, doc], ret   *)
(* a sequence of at most one type.  A node of a service is [t |-> "m", m |-> method] or [t |-> "o", kids |-> sequence of *)
(* [name, node]].                                                                                                         *)
EXTENDS JsonText, TLC

Text(b) == [t |-> "str", v |-> b]
RECURSIVE TypeText(_, _)
TypeText(t, names) == CASE t.k = "num" -> Text(sNumber)
                        [] t.k = "bool" -> Text(sBoolean)
                        [] t.k = "str" -> Text(sString)
                        [] t.k = "arr" -> [t |-> "arr", v |-> <<TypeText(t.of, names)>>]
                        [] t.k = "map" -> Text(sObject)
                        [] t.k = "opt" -> TypeText(t.of, names)
                        [] t.k = "obj" -> Text(names[t.i])

\* The structured types a type's text mentions, and those that are anywhere in it
RECURSIVE Mentioned(_), Inside(_)
Mentioned(t) == CASE t.k = "obj" -> {t.i} [] t.k \in {"arr", "opt"} -> Mentioned(t.of) [] OTHER -> {}
Inside(t) == CASE t.k = "obj" -> {t.i} [] t.k \in {"arr", "opt", "map"} -> Inside(t.of) [] OTHER -> {}
RECURSIVE Closure(_, _, _)
Closure(set, types, deep) ==
    LET more == set \cup UNION {UNION {IF deep THEN Inside(types[i][j].type) ELSE Mentioned(types[i][j].type) : j \in 1..Len(types[i])} : i \in set}
    IN IF more = set THEN set ELSE Closure(more, types, deep)

\* The methods of a service with the paths they can be called by
RECURSIVE Methods(_, _), MethodsFrom(_, _, _)
Methods(n, prefix) == IF n.t = "m" THEN <<[path |-> prefix, m |-> n.m]>> ELSE MethodsFrom(n, 1, prefix)
MethodsFrom(n, i, prefix) == IF i > Len(n.kids) THEN <<>>
                             ELSE Methods(n.kids[i].node, IF prefix = <<>> THEN n.kids[i].name ELSE prefix \o <<46>> \o n.kids[i].name) \o MethodsFrom(n, i + 1, prefix)
TypesOf(m) == {m.params[i].type : i \in 1..Len(m.params)} \cup {m.ret[i] : i \in 1..Len(m.ret)}
Listed(ms, types, deep) == LET direct == UNION {TypesOf(ms[i].m) : i \in 1..Len(ms)}
                           IN Closure(UNION {IF deep THEN Inside(t) ELSE Mentioned(t) : t \in direct}, types, deep)

\* Objects of a JSON text
IsObj(v) == v.t = "obj" /\ \A i, j \in 1..Len(v.v) : i # j => v.v[i][1] # v.v[j][1]
NamesOf(v) == {v.v[i][1] : i \in 1..Len(v.v)}
Field(v, name) == v.v[CHOOSE i \in 1..Len(v.v) : v.v[i][1] = name][2]
Fields(v, names) == IsObj(v) /\ NamesOf(v) = names
Num(n) == [t |-> "num", int |-> TRUE, neg |-> FALSE, v |-> Norm(<<n \div 100, (n \div 10) % 10, n % 10>>, 0)]
DocLines(v, doc) == v = [t |-> "arr", v |-> IF doc = <<>> THEN <<>> ELSE <<Text(doc)>>]

MembersRight(v, members, names) ==
    /\ IsObj(v) /\ Len(v.v) = Len(members)
    /\ \A i \in 1..Len(members) : members[i].name \in NamesOf(v) /\ Field(v, members[i].name) = TypeText(members[i].type, names)
MethodRight(v, m, names) ==
    /\ Fields(v, {sDocLines, sParams, sRetInfo})
    /\ DocLines(Field(v, sDocLines), m.doc)
    /\ LET ps == Field(v, sParams)
       IN /\ IsObj(ps) /\ Len(ps.v) = Len(m.params)
          /\ \A i \in 1..Len(m.params) :
                /\ m.params[i].name \in NamesOf(ps)
                /\ LET p == Field(ps, m.params[i].name)
                   IN /\ Fields(p, {sDefOrder, sDocLines, sType, sOptional})
                      /\ Field(p, sDefOrder) = Num(i)
                      /\ DocLines(Field(p, sDocLines), m.params[i].doc)
                      /\ Field(p, sType) = TypeText(m.params[i].type, names)
                      /\ Field(p, sOptional) = [t |-> "bool", v |-> m.params[i].opt]
    /\ LET r == Field(v, sRetInfo)
       IN /\ Fields(r, {sDocLines, sType})
          /\ DocLines(Field(r, sDocLines), m.rdoc)
          /\ Field(r, sType) = IF m.ret = <<>> THEN [t |-> "null"] ELSE TypeText(m.ret[1], names)

Right(v, root, types, names, url, service) ==
    LET ms == Methods(root, <<>>)
    IN /\ Fields(v, {sType, sVersion, sServicename, sUrl, sTypes, sMethods})
       /\ Field(v, sType) = Text(sWsp) /\ Field(v, sVersion) = Text(s10)
       /\ Field(v, sServicename) = Text(service) /\ Field(v, sUrl) = Text(url)
       /\ LET ts == Field(v, sTypes)
          IN /\ IsObj(ts)
             /\ LET set == {i \in 1..Len(types) : names[i] \in NamesOf(ts)}
                IN /\ NamesOf(ts) = {names[i] : i \in set}
                   /\ Listed(ms, types, FALSE) \subseteq set /\ set \subseteq Listed(ms, types, TRUE)
                   /\ \A i \in set : MembersRight(Field(ts, names[i]), types[i], names)
       /\ LET os == Field(v, sMethods)
          IN /\ IsObj(os) /\ NamesOf(os) = {ms[i].path : i \in 1..Len(ms)}
             /\ \A i \in 1..Len(ms) : MethodRight(Field(os, ms[i].path), ms[i].m, names)
=============================================================================
