--------------------------------- MODULE Tree ---------------------------------
(* Trees of service objects held by the variables of a program.                                                        *)
(* A node is [t |-> "leaf", id, resp] a function, [t |-> "stat", tag, resp] an object with the methods get, set and    *)
(* plain, [t |-> "dyn", kids, resp] an object put together at run time (kids: sequence of [name, node]), or             *)
(* [t |-> "ref", to] a function that stays in the variable to.  resp is the client set directly on the node (0: none,   *)
(* -1: unspecified).                                                                                                     *)
EXTENDS Bytes, TLC
VARIABLES vars        \* variable name -> node, for the variables in use

\* Small records for names as bytes
nGet == <<103, 101, 116>>
nSet == <<115, 101, 116>>
nPlain == <<112, 108, 97, 105, 110>>

\* The children of a node: sequence of [name, node]; methods of stat are pseudo nodes
Kids(n) == CASE n.t = "dyn" -> n.kids
             [] n.t = "stat" -> <<[name |-> nGet, node |-> [t |-> "get", tag |-> n.tag]],
                                  [name |-> nSet, node |-> [t |-> "set", tag |-> n.tag]],
                                  [name |-> nPlain, node |-> [t |-> "plain", tag |-> n.tag]]>>
             [] OTHER -> <<>>
KidNamed(n, name) == {i \in 1..Len(Kids(n)) : Kids(n)[i].name = name}

\* Path strings: names joined by a separator
RECURSIVE Joined(_, _)
Joined(names, sep) == IF names = <<>> THEN <<>> ELSE IF Len(names) = 1 THEN names[1] ELSE names[1] \o sep \o Joined(Tail(names), sep)
RECURSIVE Split(_, _, _, _)
Split(p, sep, i, acc) ==      \* acc: the current name so far
    IF i > Len(p) THEN <<acc>>
    ELSE IF SubSeq(p, i, IF i + Len(sep) - 1 <= Len(p) THEN i + Len(sep) - 1 ELSE Len(p)) = sep THEN <<acc>> \o Split(p, sep, i + Len(sep), <<>>)
    ELSE Split(p, sep, i + 1, Append(acc, p[i]))
Names(p, sep) == IF p = <<>> THEN <<>> ELSE Split(p, sep, 1, <<>>)

Nothing == [t |-> "nothing"]
RECURSIVE Lookup(_, _)
Lookup(n, names) == IF names = <<>> THEN n
                    ELSE LET k == KidNamed(n, names[1]) IN IF k = {} THEN Nothing ELSE Lookup(Kids(n)[CHOOSE i \in k : TRUE].node, Tail(names))
\* What a path string may be taken for: a separator at the end may be ignored
Found(n, p, sep) == LET names == Names(p, sep)
                    IN {Lookup(n, names)} \cup (IF names # <<>> /\ names[Len(names)] = <<>> THEN {Lookup(n, SubSeq(names, 1, Len(names) - 1))} ELSE {})

\* All nodes under a node: sequence of [ix, names, node], depth first
RECURSIVE Under(_, _, _), UnderFrom(_, _, _, _)
UnderFrom(n, i, ix, names) ==
    IF i > Len(Kids(n)) THEN <<>>
    ELSE LET k == Kids(n)[i]
             ix2 == Append(ix, i - 1)
             names2 == Append(names, k.name)
         IN <<[ix |-> ix2, names |-> names2, node |-> k.node]>> \o Under(k.node, ix2, names2) \o UnderFrom(n, i + 1, ix, names)
Under(n, ix, names) == UnderFrom(n, 1, ix, names)

\* What calling a node with the argument a gives: -1 if it is not a function
Result(n, a) == CASE n.t = "leaf" -> n.id * 100 + a
                  [] n.t = "ref" -> vars[n.to].id * 100 + a
                  [] n.t = "get" -> n.tag
                  [] n.t = "set" -> a
                  [] n.t = "plain" -> a + 1
                  [] OTHER -> -1

\* Changing a node deep in a tree
RECURSIVE SetTag(_, _, _)
SetTag(n, names, tag) == IF n.t = "stat" THEN [n EXCEPT !.tag = tag]
                         ELSE LET i == CHOOSE i \in KidNamed(n, names[1]) : TRUE IN [n EXCEPT !.kids[i].node = SetTag(@, Tail(names), tag)]

\* Where a variable is referred to: {} or one [v, names]
Places(v) == UNION {LET u == Under(vars[w], <<>>, <<>>) IN {[v |-> w, names |-> u[i].names] : i \in {j \in 1..Len(u) : u[j].node = [t |-> "ref", to |-> v]}}
                    : w \in {x \in DOMAIN vars : vars[x].t = "dyn"}}
\* The client that a call through a variable goes to, and the path: resp 0 for a local call
Route(v, names) ==
    IF vars[v].resp # 0 \/ Places(v) = {} THEN [resp |-> vars[v].resp, names |-> names]
    ELSE LET p == CHOOSE p \in Places(v) : TRUE IN [resp |-> vars[p.v].resp, names |-> p.names \o names]
\* The path is always the one from the root
FullRoute(v, names) == LET r == Route(v, names)
                       IN IF Places(v) = {} THEN r ELSE [r EXCEPT !.names = (CHOOSE p \in Places(v) : TRUE).names \o names]

Without(vs) == [x \in DOMAIN vars \ vs |-> vars[x]]
With(f, v, n) == [x \in DOMAIN f \cup {v} |-> IF x = v THEN n ELSE f[x]]

\* ---- operations
New(v, node) == v \notin DOMAIN vars /\ vars' = With(vars, v, node)
Add(v, name, w) == /\ v \in DOMAIN vars /\ w \in DOMAIN vars /\ v # w /\ vars[v].t = "dyn" /\ KidNamed(vars[v], name) = {} /\ Places(w) = {}
                   /\ vars' = With(Without({w}), v, [vars[v] EXCEPT !.kids = Append(@, [name |-> name, node |-> [vars[w] EXCEPT !.resp = 0]])])
Borrow(v, name, w) == /\ vars[v].t = "dyn" /\ vars[w].t = "leaf" /\ KidNamed(vars[v], name) = {} /\ Places(w) = {}
                      /\ vars' = With(With(vars, w, [vars[w] EXCEPT !.resp = 0]), v, [vars[v] EXCEPT !.kids = Append(@, [name |-> name, node |-> [t |-> "ref", to |-> w]])])
Move(v, w) == /\ w \notin DOMAIN vars /\ Places(v) = {}
              /\ vars' = With(Without({v}), w, [vars[v] EXCEPT !.resp = IF @ = 0 THEN 0 ELSE -1])
Copy(v, w) == /\ vars[v].t = "stat" /\ w \notin DOMAIN vars /\ vars' = With(vars, w, [vars[v] EXCEPT !.resp = IF @ = 0 THEN 0 ELSE -1])
Assign(v, w) == /\ vars[v].t = "stat" /\ vars[w].t = "stat" /\ vars' = With(vars, w, [vars[w] EXCEPT !.tag = vars[v].tag])
Client(v, r) == vars' = With(vars, v, [vars[v] EXCEPT !.resp = r])

\* ---- observations
Walk(v, got, sep) ==     \* every node is where it has to be and is found by the path it constructs
    LET u == Under(vars[v], <<>>, <<>>)
    IN /\ Len(got) = Len(u)
       /\ \A i \in 1..Len(u) : /\ got[i].ix = u[i].ix /\ got[i].ci = u[i].ix /\ got[i].path = Joined(u[i].names, sep) /\ got[i].same
                               /\ (u[i].node.t # "set" => got[i].res = Result(u[i].node, 7))
       /\ UNCHANGED vars
Find(v, path, sep, found, res) == /\ \E n \in Found(vars[v], path, sep) : IF n = Nothing THEN ~found ELSE found /\ (n.t # "set" => res = Result(n, 7))
                                  /\ UNCHANGED vars
\* A call as a server does it: by path, with the argument a
Serve(v, names, a, res) ==
    LET n == Lookup(vars[v], names)
    IN /\ res = Result(n, a)
       /\ vars' = IF n.t = "set" THEN With(vars, v, SetTag(vars[v], names, a)) ELSE vars
\* A call in the program through a variable (method: <<>> for a function)
Local(v, method, a, res) ==
    LET n == Lookup(vars[v], method)
    IN /\ FullRoute(v, method).resp \in {0, -1} /\ res = Result(n, a)
       /\ vars' = IF n.t = "set" THEN With(vars, v, SetTag(vars[v], method, a)) ELSE vars
Sent(v, method, r, path, sep) ==
    LET f == FullRoute(v, method)
    IN f.resp \in {r, -1} /\ path = Joined(f.names, sep) /\ UNCHANGED vars
=============================================================================
