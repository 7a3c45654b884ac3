------------------------------ MODULE MC_JsonRpc ------------------------------
(* An interpreter of JSON-RPC requests that goes through the members of a request in the order they come and acts once  *)
(* it has seen all of them does what JsonRpc demands, for every choice and order of members and for batches.            *)
(* Bug names ways of interpreting that do not: "eager" acts as soon as it knows method and parameters, "loud" answers   *)
(* failed notifications, "strict" refuses additional members, "shared" keeps the identifier of the previous request.     *)
EXTENDS JsonRpc
CONSTANTS Bug, Most, Batch
IntV(i) == [t |-> "num", int |-> TRUE, neg |-> FALSE, v |-> [d |-> IF i = 0 THEN <<>> ELSE <<i>>, e |-> 0]]
StrV(b) == [t |-> "str", v |-> b]
Ms == << [m |-> <<97>>, names |-> <<<<97>>>>, ps |-> SObj(<<<< <<120>>, SInt("i32"), None0>>>>), res |-> SInt("i32")],
         [m |-> <<98>>, names |-> <<<<98>>>>, ps |-> SObj(<<>>), res |-> [k |-> "void"]] >>
Choices == {<<sJsonrpc, StrV(sTwo)>>, <<sJsonrpc, StrV(<<49>>)>>, <<sId, IntV(1)>>, <<sId, StrV(<<105>>)>>, <<sMethod, StrV(<<97>>)>>, <<sMethod, StrV(<<98>>)>>,
            <<sMethod, StrV(<<99>>)>>, <<sMethod, IntV(1)>>, <<sParams, [t |-> "obj", v |-> <<<<<<120>>, IntV(3)>>>>]>>, <<sParams, [t |-> "obj", v |-> <<<<<<120>>, StrV(<<>>)>>>>]>>,
            <<<<122>>, IntV(2)>>}
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i][1] # q[j][1]
Sequences(n) == UNION {{q \in [1..k -> Choices] : Distinct(q)} : k \in 0..n}
VARIABLES doc,     \* the request, or a batch of them
          at,      \* which of them is being read
          left,    \* its members not read yet
          seen,    \* what was found so far
          calls, answers, over
vars == <<doc, at, left, seen, calls, answers, over, building, built, todo, saved>>
io == <<building, built, todo, saved>>
Fresh == [id |-> NoAnswer, ver |-> NoAnswer, method |-> NoAnswer, params |-> Obj0, extra |-> FALSE, acted |-> FALSE]
Docs == Sequences(Most) \X {<<>>}
Init == /\ IoInit /\ calls = <<>> /\ answers = <<>> /\ over = FALSE /\ at = 1 /\ seen = Fresh
        /\ \/ \E q \in Sequences(Most) : doc = <<[t |-> "obj", v |-> q]>>
           \/ Batch > 0 /\ \E q, r \in Sequences(Batch) : doc = <<[t |-> "obj", v |-> q], [t |-> "obj", v |-> r]>>
        /\ left = doc[1].v
Answer(id, what, v) == [t |-> "obj", v |-> <<<<sJsonrpc, StrV(sTwo)>>, <<sId, id>>, <<what, v>>>>]
Error0 == [t |-> "obj", v |-> <<<<sCode, IntV(9)>>, <<sMessage, StrV(<<>>)>>>>]
\* The outcome of acting on what is known
Act(s) == LET good == s.ver = StrV(sTwo) \/ s.ver = NoAnswer
              i == IF s.method.t = "str" THEN Named(Ms, <<s.method.v>>) ELSE 0
              runs == good /\ i > 0 /\ Verdict(Ms[i].ps, s.params) = "yes" /\ ~(Bug = "strict" /\ s.extra)
              c == [m |-> Ms[i].m, a |-> IF i = 1 THEN [t |-> "obj", v |-> <<<<<<120>>, [t |-> "int", v |-> IF s.params.v = <<>> THEN <<48>> ELSE <<51>>, le |-> <<>>]>>>>] ELSE Obj0,
                    r |-> IF i = 1 THEN [t |-> "int", v |-> <<55>>, le |-> <<>>] ELSE [t |-> "void"]]
              invalid == ~good \/ s.method.t # "str"
              silent == s.id = NoAnswer /\ ~(invalid /\ Bug = "none") /\ ~(Bug = "loud")
              id == IF s.id = NoAnswer THEN Null ELSE s.id
          IN /\ calls' = IF runs THEN Append(calls, c) ELSE calls
             /\ answers' = IF runs THEN (IF s.id = NoAnswer THEN answers ELSE Append(answers, Answer(id, sResult, IF i = 1 THEN IntV(7) ELSE Null)))
                           ELSE IF silent THEN answers ELSE Append(answers, Answer(id, sErrorName, Error0))
Read == /\ ~over /\ left # <<>> /\ left' = Tail(left)
        /\ LET x == left[1]
               s == CASE x[1] = sId -> [seen EXCEPT !.id = x[2]]
                      [] x[1] = sJsonrpc -> [seen EXCEPT !.ver = x[2]]
                      [] x[1] = sMethod -> [seen EXCEPT !.method = x[2]]
                      [] x[1] = sParams -> [seen EXCEPT !.params = x[2]]
                      [] OTHER -> [seen EXCEPT !.extra = TRUE]
           IN IF Bug = "eager" /\ ~s.acted /\ s.method # NoAnswer /\ s.params # Obj0
              THEN seen' = [s EXCEPT !.acted = TRUE] /\ Act(s)
              ELSE seen' = s /\ UNCHANGED <<calls, answers>>
        /\ UNCHANGED <<doc, at, over, io>>
Finish == /\ ~over /\ left = <<>>
          /\ IF seen.acted THEN UNCHANGED <<calls, answers>> ELSE Act(seen)
          /\ IF at < Len(doc) THEN at' = at + 1 /\ left' = doc[at + 1].v /\ seen' = (IF Bug = "shared" THEN [Fresh EXCEPT !.id = seen.id] ELSE Fresh) /\ over' = FALSE
             ELSE over' = TRUE /\ UNCHANGED <<at, left, seen>>
          /\ UNCHANGED <<doc, io>>
Spec == Init /\ [][Read \/ Finish]_vars
Right == over => IF Len(doc) = 1 THEN Fits(Ms, doc[1], calls, IF answers = <<>> THEN NoAnswer ELSE answers[1]) /\ Len(answers) <= 1
                 ELSE FitsAll(Ms, doc, calls, answers)
===============================================================================
