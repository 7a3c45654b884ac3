------------------------------ MODULE MC_JsClient ------------------------------
(* How the client does it: each function checks its arguments, then converts them, counts requests before it waits for *)
(* the response and continues with that response.  Any arguments, any order of calls and responses.                     *)
EXTENDS JsClient
CONSTANTS Most, Bug
VARIABLES counter, todo, waiting, got, wrong
mcvars == <<api, stage, calls, used, counter, todo, waiting, got, wrong>>
\* f(p: Point, l: [[number]] optional), Point is x: number, n: [boolean]
nF == <<102>>  nP == <<112>>  nL == <<108>>  nX == <<120>>  nN == <<110>>  nZ == <<122>>  nPoint == <<80>>
Num(b) == [k |-> "num", b |-> b]
MStr(b) == [k |-> "str", b |-> b]
Arr(v) == [k |-> "arr", v |-> v]
TNum == [k |-> "num"]
TArr(t) == [k |-> "arr", of |-> t]
TPoint == [k |-> "cls", n |-> nPoint]
Types == << <<nPoint, << <<nX, TNum>>, <<nN, TArr([k |-> "bool"])>> >>>> >>
Api == [node |-> FALSE, base |-> <<47>>, service |-> <<>>, types |-> Types,
        methods |-> <<[n |-> nF, ps |-> <<[n |-> nP, t |-> TPoint, o |-> FALSE], [n |-> nL, t |-> TArr(TArr(TNum)), o |-> TRUE]>>]>>]
One == Num(<<49>>)
Flags(v) == [k |-> "arr", v |-> <<v>>]
Points == {[k |-> "inst", n |-> nPoint, v |-> << <<nX, One>>, <<nN, Flags([k |-> "bool", v |-> TRUE])>> >>],
           [k |-> "inst", n |-> nPoint, v |-> << <<nX, One>>, <<nN, Arr(<<>>)>>, <<nZ, One>> >>],
           [k |-> "inst", n |-> nPoint, v |-> << <<nX, One>>, <<nN, Flags(One)>> >>],
           [k |-> "inst", n |-> nPoint, v |-> <<>>],
           [k |-> "none"]}
Lists == {[k |-> "none"], Arr(<<>>), Arr(<<Arr(<<One, One>>)>>), Arr(<<Arr(<<One>>), Arr(<<MStr(<<49>>)>>)>>), Arr(<<One>>)}

Init == api = Api /\ stage = "ready" /\ calls = <<>> /\ used = {} /\ counter = 0 /\ todo = 0 /\ waiting = {} /\ got = <<>> /\ wrong = FALSE

\* The checks and conversions that are made from the declarations
RECURSIVE Passes(_, _, _), Convert(_, _), RawOf(_)
Passes(t, x, depth) ==
    CASE t.k = "arr" -> x.k = "arr" /\ ((Bug = "unchecked" /\ depth > 0) \/ \A i \in 1..Len(x.v) : Passes(t.of, x.v[i], depth + 1))
      [] t.k = "cls" -> x.k = "inst" /\ x.n = t.n
                        /\ \A i \in 1..Len(At1(Types, t.n)) : LET m == At1(Types, t.n)[i] IN Passes(m[2], Member(x, m), 0)
      [] OTHER -> x.k = t.k
JNum(b) == NumberOf(b)
RawOf(x) == CASE x.k = "num" -> JNum(x.b) [] x.k = "str" -> [t |-> "str", v |-> x.b] [] x.k = "bool" -> [t |-> "bool", v |-> x.v]
              [] x.k = "arr" -> [t |-> "arr", v |-> [i \in 1..Len(x.v) |-> RawOf(x.v[i])]]
              [] x.k = "inst" -> [t |-> "obj", v |-> [i \in 1..Len(x.v) |-> <<x.v[i][1], RawOf(x.v[i][2])>>]]
              [] OTHER -> [t |-> "null"]
Convert(t, x) == CASE t.k = "arr" -> [t |-> "arr", v |-> [i \in 1..Len(x.v) |-> Convert(t.of, x.v[i])]]
                   [] t.k = "cls" -> LET ms == At1(Types, t.n) IN [t |-> "obj", v |-> [i \in 1..Len(ms) |-> <<ms[i][1], Convert(ms[i][2], Member(x, ms[i]))>>]]
                   [] OTHER -> RawOf(x)
Sending(a) == LET arg(i, x) == <<Api.methods[1].ps[i].n, IF Bug = "raw" THEN RawOf(x) ELSE Convert(Api.methods[1].ps[i].t, x)>>
                  params == <<arg(1, a[1])>> \o (IF a[2].k = "none" THEN <<>> ELSE <<arg(2, a[2])>>)
              IN [t |-> "obj", v |-> << <<sJsonrpc, [t |-> "str", v |-> sTwo]>>, <<sId, JNum(<<48 + counter>>)>>, <<sMethod, [t |-> "str", v |-> nF]>>,
                                         <<sParams, [t |-> "obj", v |-> params]>> >>]
Invoke == /\ todo = 0 /\ Len(calls) < Most /\ ~wrong
          /\ \E p \in Points, l \in Lists : Call(Len(calls) + 1, nF, <<p, l>>)
          /\ todo' = Len(calls) + 1 /\ UNCHANGED <<counter, waiting, got, wrong>>
Go == /\ todo > 0 /\ todo' = 0
      /\ LET a == calls[todo].a
             passes == Passes(Api.methods[1].ps[1].t, a[1], 0) /\ (a[2].k = "none" \/ Passes(Api.methods[1].ps[2].t, a[2], 0))
             j == Sending(a)
         IN IF passes
            THEN /\ IF (SendsFor(todo, j)) = TRUE /\ At1(j.v, sId) \notin used THEN SentValue(todo, Base, TRUE, TRUE, j) /\ wrong' = FALSE
                    ELSE wrong' = TRUE /\ UNCHANGED jsvars
                 /\ waiting' = waiting \cup {todo} /\ UNCHANGED got
                 /\ counter' = (IF Bug = "late" THEN counter ELSE counter + 1)
            ELSE /\ IF (SettledRight(calls[todo], FALSE, <<>>)) = TRUE THEN Settled(todo, FALSE, <<>>) /\ wrong' = FALSE
                    ELSE wrong' = TRUE /\ UNCHANGED jsvars
                 /\ counter' = (IF Bug = "late" THEN counter ELSE counter + 1) /\ UNCHANGED <<waiting, got>>
Answer == /\ ~wrong /\ todo = 0 /\ \E q \in waiting : Respond(q, "result", <<48 + q>>) /\ got' = Append(got, q) /\ waiting' = waiting \ {q}
          /\ counter' = (IF Bug = "late" THEN counter + 1 ELSE counter) /\ UNCHANGED <<todo, wrong>>
\* The continuation of a call gets the response that it waited for
Continue == /\ ~wrong /\ got # <<>> /\ todo = 0
            /\ LET q == got[1]
                   c == IF Bug = "shared" THEN (CHOOSE x \in 1..Len(calls) : \A y \in 1..Len(calls) : calls[y].st \in {"sent", "answered"} => y <= x /\ calls[x].st \in {"sent", "answered"}) ELSE q
               IN IF (SettledRight(calls[c], TRUE, <<48 + q>>)) = TRUE THEN Settled(c, TRUE, <<48 + q>>) /\ UNCHANGED wrong ELSE wrong' = TRUE /\ UNCHANGED jsvars
            /\ got' = Tail(got) /\ UNCHANGED <<counter, todo, waiting>>
Next == Invoke \/ Go \/ Answer \/ Continue
Spec == Init /\ [][Next]_mcvars
Right == ~wrong
\* Everything is settled at the end
Ends == (todo = 0 /\ waiting = {} /\ got = <<>>) => \A c \in 1..Len(calls) : calls[c].st = "settled"
=============================================================================
