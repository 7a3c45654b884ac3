-------------------------------- MODULE JsonRpc --------------------------------
(* What a JSON-RPC request means: which calls it leads to and what its answer is.  Requests and answers are JSON       *)
(* values (see JsonText), calls are records [m: method, a: arguments, r: result].                                       *)
EXTENDS Service, Ascii, TLC

sJsonrpc == <<106, 115, 111, 110, 114, 112, 99>>
sTwo == <<50, 46, 48>>
sId == <<105, 100>>
sMethod == <<109, 101, 116, 104, 111, 100>>
sResult == <<114, 101, 115, 117, 108, 116>>
sErrorName == <<101, 114, 114, 111, 114>>
sCode == <<99, 111, 100, 101>>
sMessage == <<109, 101, 115, 115, 97, 103, 101>>

Null == [t |-> "null"]
NoAnswer == [t |-> "nothing"]
Obj0 == [t |-> "obj", v |-> <<>>]
Has(o, name) == Find(o.v, name) > 0
Get(o, name) == o.v[Find(o.v, name)][2]
Count(o, name) == Cardinality({i \in 1..Len(o.v) : o.v[i][1] = name})

\* ---- answers
EqualId(a, b) == IF a.t = "num" /\ b.t = "num" THEN a.v = b.v /\ (a.v.d # <<>> => a.neg = b.neg) ELSE a = b
IsAnswer(ans) == /\ ans.t = "obj" /\ Len(ans.v) = 3 /\ Has(ans, sJsonrpc) /\ Has(ans, sId)
                 /\ Get(ans, sJsonrpc) = [t |-> "str", v |-> sTwo]
IsError(ans, id) == /\ IsAnswer(ans) /\ EqualId(Get(ans, sId), id) /\ Has(ans, sErrorName)
                    /\ LET er == Get(ans, sErrorName)
                       IN /\ er.t = "obj" /\ Has(er, sCode) /\ Has(er, sMessage)
                          /\ Get(er, sCode).t = "num" /\ Get(er, sCode).int /\ Get(er, sMessage).t = "str"
IsResult(ans, id, r) == /\ IsAnswer(ans) /\ EqualId(Get(ans, sId), id) /\ Has(ans, sResult)
                        /\ IF r.t = "void" THEN Get(ans, sResult) = Null ELSE Same(r, Get(ans, sResult))
AnswersCall(ans, id, c) == IF c.r.t = "throw" THEN IsError(ans, id) ELSE IsResult(ans, id, c.r)
AnyAnswer(ans, id) == IsError(ans, id) \/ (IsAnswer(ans) /\ EqualId(Get(ans, sId), id) /\ Has(ans, sResult))

\* ---- one request; calls and ans are what happened (ans is NoAnswer if there was none)
Refused(hasId, id, calls, ans) == calls = <<>> /\ IF hasId THEN IsError(ans, id) ELSE ans = NoAnswer
Done(method, args, hasId, id, calls, ans) ==
    /\ Len(calls) = 1 /\ CallIs(method, args, calls[1])
    /\ IF hasId THEN AnswersCall(ans, id, calls[1]) ELSE ans = NoAnswer
Fits(ms, v, calls, ans) ==
    IF v.t # "obj" THEN calls = <<>> /\ IsError(ans, Null)
    ELSE IF \E n \in {sJsonrpc, sId, sMethod, sParams} : Count(v, n) > 1
    THEN Len(calls) <= 1 /\ (ans = NoAnswer \/ (Has(ans, sId) /\ AnyAnswer(ans, Get(ans, sId))))
    ELSE LET hasId == Has(v, sId)
             given == IF hasId THEN Get(v, sId) ELSE Null
             \* numbers all formats can express
             proper == given.t \in {"str", "null"} \/ (given.t = "num" /\ IF given.int THEN Digits(given.v) <= 18 ELSE Len(given.v.d) <= 15 /\ given.v.e < 200 /\ given.v.e > -200)
             id == IF proper THEN given ELSE IF given.t = "num" /\ ans.t = "obj" /\ Has(ans, sId) /\ Get(ans, sId).t = "num" THEN Get(ans, sId) ELSE Null
             version == IF ~Has(v, sJsonrpc) THEN "maybe" ELSE IF Get(v, sJsonrpc) = [t |-> "str", v |-> sTwo] THEN "yes" ELSE "no"
             named == Has(v, sMethod) /\ Get(v, sMethod).t = "str"
             found == IF named THEN FoundMethods(ms, Get(v, sMethod).v, 46) ELSE {0}
             args == IF Has(v, sParams) THEN Get(v, sParams) ELSE Obj0
             One(i) == IF i = 0 THEN Refused(hasId, id, calls, ans)
                       ELSE CASE Verdict(ms[i].ps, args) = "no" -> Refused(hasId, id, calls, ans)
                              [] Verdict(ms[i].ps, args) = "yes" -> Done(ms[i], args, hasId, id, calls, ans)
                              [] OTHER -> /\ Len(calls) <= 1 /\ (calls # <<>> => calls[1].m = ms[i].m)
                                          /\ IF hasId THEN AnyAnswer(ans, id) ELSE ans = NoAnswer
             \* Not a request, so it may also be answered as one that asks for an answer but has no identifier
             NotRequest == calls = <<>> /\ (IsError(ans, id) \/ IsError(ans, Null) \/ (~hasId /\ ans = NoAnswer))
         IN \/ (version = "no" \/ ~named) /\ NotRequest
            \/ version = "maybe" /\ NotRequest
            \/ ~proper /\ calls = <<>> /\ IsError(ans, Null)
            \/ version # "no" /\ named /\ \E i \in found : One(i)

\* ---- a batch: calls and answers in the order of the requests
RECURSIVE FitsAll(_, _, _, _)
FitsAll(ms, vs, calls, answers) ==
    IF vs = <<>> THEN calls = <<>> /\ answers = <<>>
    ELSE \E n \in {0, 1} : \E a \in {0, 1} :
            /\ n <= Len(calls) /\ a <= Len(answers)
            /\ Fits(ms, vs[1], SubSeq(calls, 1, n), IF a = 1 THEN answers[1] ELSE NoAnswer)
            /\ FitsAll(ms, Tail(vs), SubSeq(calls, n + 1, Len(calls)), SubSeq(answers, a + 1, Len(answers)))

\* ---- a document; ans is what the answer denotes (NoAnswer if empty)
Understood(ms, v, calls, ans) ==
    IF v.t # "arr" THEN Fits(ms, v, calls, ans)
    ELSE IF v.v = <<>> THEN calls = <<>> /\ (ans = [t |-> "arr", v |-> <<>>] \/ IsError(ans, Null))
    ELSE IF ans = NoAnswer THEN FitsAll(ms, v.v, calls, <<>>)
    ELSE ans.t = "arr" /\ FitsAll(ms, v.v, calls, ans.v)
=============================================================================
