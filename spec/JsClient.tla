-------------------------------- MODULE JsClient --------------------------------
(* The client library for scripts: it is told what methods a server has and offers them as functions that check and    *)
(* convert their arguments, send requests and give their results.                                                       *)
(* Types are [k |-> "num" | "bool" | "str" | "map"], [k |-> "arr", of |-> type] or [k |-> "cls", n |-> name]; values     *)
(* [k |-> "num" | "str", b |-> bytes], [k |-> "bool", v], [k |-> "arr", v |-> sequence], [k |-> "map", v |-> sequence of *)
(* <<name, value>>], [k |-> "inst", n |-> class, v |-> ditto] or [k |-> "none"].                                          *)
EXTENDS JsonText, FiniteSets
VARIABLES api,      \* [node, base, service, types, methods], methods is a sequence of [n, ps |-> sequence of [n, t, o]]
          stage,    \* "" | "loading" | "fetched" | "ready"
          calls,    \* [m, a, st: "made" | "sent" | "answered" | "settled", q, kind, b]
          used      \* identifiers of requests sent
jsvars == <<api, stage, calls, used>>
JsInit == api = <<>> /\ stage = "" /\ calls = <<>> /\ used = {}

sJsonrpc == <<106, 115, 111, 110, 114, 112, 99>>
sTwo == <<50, 46, 48>>
sId == <<105, 100>>
sMethod == <<109, 101, 116, 104, 111, 100>>
sDescription == <<97, 112, 105, 95, 100, 101, 115, 99, 114, 105, 112, 116, 105, 111, 110, 46, 106, 115, 111, 110>>  \* api_description.json
sHttp == <<104, 116, 116, 112, 58, 47, 47>>
sDefault == sHttp \o <<48, 46, 48, 46, 48, 46, 48, 58, 56, 48, 56, 48, 47>>                                            \* http://0.0.0.0:8080/
sAfterScheme == <<58, 47, 47>>

Has(ps, name) == \E i \in 1..Len(ps) : ps[i][1] = name
At1(ps, name) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = name][2]
NamesIn(ps) == {ps[i][1] : i \in 1..Len(ps)}
\* The number of names is the number of different ones
Distinct(ps) == \A i, j \in 1..Len(ps) : i # j => ps[i][1] # ps[j][1]
NumberOf(b) == Value(b, 1).v

\* ---- where requests go: scripts outside of browsers have no page the address could be relative to
Base == IF ~api.node THEN api.base
        ELSE IF api.base = <<>> THEN sDefault
        ELSE (IF \E i \in 1..(Len(api.base) - 2) : SubSeq(api.base, i, i + 2) = sAfterScheme THEN api.base ELSE sHttp \o api.base)
             \o (IF api.base[Len(api.base)] = 47 THEN <<>> ELSE <<47>>)

\* ---- does a value have the type that is declared, and is a JSON value what it's to be sent as
\* (members that are not set have values to begin with)
Initially(t) == CASE t.k = "num" -> [k |-> "num", b |-> <<48>>] [] t.k = "str" -> [k |-> "str", b |-> <<>>] [] t.k = "bool" -> [k |-> "bool", v |-> FALSE]
                  [] t.k = "arr" -> [k |-> "arr", v |-> <<>>] [] OTHER -> [k |-> "none"]
Member(x, m) == IF Has(x.v, m[1]) THEN At1(x.v, m[1]) ELSE Initially(m[2])
RECURSIVE WellTyped(_, _), SentAs(_, _, _), Plain(_, _)
WellTyped(t, x) ==
    CASE t.k \in {"num", "str", "bool", "map"} -> x.k = t.k
      [] t.k = "arr" -> x.k = "arr" /\ \A i \in 1..Len(x.v) : WellTyped(t.of, x.v[i])
      [] t.k = "cls" -> x.k = "inst" /\ x.n = t.n /\ LET ms == At1(api.types, t.n) IN \A i \in 1..Len(ms) : WellTyped(ms[i][2], Member(x, ms[i]))
\* (without a declaration of what's inside)
Plain(x, j) ==
    CASE x.k = "num" -> j.t = "num" /\ LET n == NumberOf(x.b) IN j.v = n.v /\ (n.v.d # <<>> => j.neg = n.neg)
      [] x.k = "str" -> j.t = "str" /\ j.v = x.b
      [] x.k = "bool" -> j.t = "bool" /\ j.v = x.v
      [] x.k = "none" -> j.t = "null"
      [] x.k = "arr" -> j.t = "arr" /\ Len(j.v) = Len(x.v) /\ \A i \in 1..Len(x.v) : Plain(x.v[i], j.v[i])
      [] x.k = "map" -> j.t = "obj" /\ Distinct(j.v) /\ NamesIn(j.v) = NamesIn(x.v) /\ \A i \in 1..Len(x.v) : Plain(x.v[i][2], At1(j.v, x.v[i][1]))
      [] OTHER -> FALSE
SentAs(t, x, j) ==
    CASE t.k \in {"num", "str", "bool", "map"} -> Plain(x, j)
      [] t.k = "arr" -> j.t = "arr" /\ Len(j.v) = Len(x.v) /\ \A i \in 1..Len(x.v) : SentAs(t.of, x.v[i], j.v[i])
      [] t.k = "cls" -> LET ms == At1(api.types, t.n)
                        IN /\ j.t = "obj" /\ Distinct(j.v) /\ NamesIn(j.v) = NamesIn(ms)
                           /\ \A i \in 1..Len(ms) : SentAs(ms[i][2], Member(x, ms[i]), At1(j.v, ms[i][1]))

MethodOf(name) == api.methods[CHOOSE i \in 1..Len(api.methods) : api.methods[i].n = name]
Given(c, i) == i <= Len(c.a) /\ c.a[i].k # "none"
Acceptable(c) == LET ps == MethodOf(c.m).ps IN \A i \in 1..Len(ps) : IF Given(c, i) THEN WellTyped(ps[i].t, c.a[i]) ELSE ps[i].o
RequestRight(c, j) ==
    /\ j.t = "obj" /\ Distinct(j.v) /\ NamesIn(j.v) = {sJsonrpc, sId, sMethod, sParams}
    /\ At1(j.v, sJsonrpc) = [t |-> "str", v |-> sTwo] /\ At1(j.v, sMethod).t = "str" /\ At1(j.v, sMethod).v = c.m
    /\ At1(j.v, sId).t \in {"num", "str"}
    /\ LET ps == MethodOf(c.m).ps
           args == At1(j.v, sParams)
           set == {i \in 1..Len(ps) : Given(c, i)}
       IN /\ args.t = "obj" /\ Distinct(args.v) /\ NamesIn(args.v) = {ps[i].n : i \in set}
          /\ \A i \in set : SentAs(ps[i].t, c.a[i], At1(args.v, ps[i].n))

\* ---- transitions
Load(a) == stage \in {"", "ready"} /\ (\A i \in 1..Len(calls) : calls[i].st = "settled") /\ api' = a /\ stage' = "loading" /\ UNCHANGED <<calls, used>>
Fetched(url, get) == stage = "loading" /\ get /\ url = Base \o sDescription /\ stage' = "fetched" /\ UNCHANGED <<api, calls, used>>
Loaded(service, types) == /\ stage = "fetched" /\ service = api.service
                          /\ {types[i] : i \in 1..Len(types)} = NamesIn(api.types)
                          /\ stage' = "ready" /\ UNCHANGED <<api, calls, used>>
Call(c, m, a) == /\ stage = "ready" /\ c = Len(calls) + 1
                 /\ calls' = Append(calls, [m |-> m, a |-> a, st |-> "made", q |-> 0, kind |-> "", b |-> <<>>]) /\ UNCHANGED <<api, stage, used>>
SendsFor(c, j) == calls[c].st = "made" /\ Acceptable(calls[c]) /\ RequestRight(calls[c], j)
SentValue(q, url, post, json, j) ==
    /\ stage = "ready" /\ url = Base /\ post /\ json
    /\ \E c \in 1..Len(calls) : (SendsFor(c, j)) = TRUE /\ calls' = [calls EXCEPT ![c].st = "sent", ![c].q = q]
    /\ LET id == At1(j.v, sId) IN id \notin used /\ used' = used \cup {id}
    /\ UNCHANGED <<api, stage>>
Sent(q, url, post, json, body) == LET j == Parse(body) IN j.ok /\ SentValue(q, url, post, json, j.v)
Respond(q, kind, b) == \E c \in 1..Len(calls) : /\ calls[c].st = "sent" /\ calls[c].q = q
                                                /\ calls' = [calls EXCEPT ![c].st = "answered", ![c].kind = kind, ![c].b = b] /\ UNCHANGED <<api, stage, used>>
SettledRight(c, ok, b) ==
    CASE c.st = "made" -> ~ok /\ ~Acceptable(c)
      [] c.st = "answered" -> IF c.kind = "result" THEN ok /\ Parse(b).ok /\ Parse(b).v = Parse(c.b).v
                              ELSE ~ok /\ (c.kind = "error" => b = c.b)
      [] OTHER -> FALSE
Settled(c, ok, b) == c \in 1..Len(calls) /\ (SettledRight(calls[c], ok, b)) = TRUE /\ calls' = [calls EXCEPT ![c].st = "settled"] /\ UNCHANGED <<api, stage, used>>
\* Nothing is left to be done before responses come
Quiet == (\A c \in 1..Len(calls) : calls[c].st \in {"sent", "settled"}) /\ UNCHANGED jsvars
=============================================================================
