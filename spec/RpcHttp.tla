-------------------------------- MODULE RpcHttp --------------------------------
(* A connection of a HTTP server with methods behind it: the requests received, the calls they lead to, the replies.   *)
(* kind "json": POST requests are JSON-RPC; kind "form": POST requests are forms.  GET requests with arguments call      *)
(* methods in both; pages are other resources.                                                                          *)
EXTENDS JsonRpc
H == INSTANCE HttpMsg
JT == INSTANCE JsonText
FT == INSTANCE FormText
VARIABLES kind, methods, pages,   \* configuration; pages: sequence of <<path, contents>>
          pend,                   \* bytes received that do not belong to a request answered
          ran, sent               \* calls and bytes sent since then
rvars == <<kind, methods, pages, pend, ran, sent>>

Ok(resp) == resp.code = 200

\* ---- JSON-RPC
Json(r, calls, resp) ==
    IF r.ctype # sJsonType THEN calls = <<>> /\ resp.code = 400
    ELSE LET doc == JT!Parse(r.body)
             ans == IF resp.body = <<>> THEN [ok |-> TRUE, v |-> NoAnswer] ELSE JT!Parse(resp.body)
         IN IF doc.ok THEN Ok(resp) /\ ans.ok /\ Understood(methods, doc.v, calls, ans.v)
            ELSE IF r.body = <<>> \/ JT!OpenEnd(r.body)
            THEN calls = <<>> /\ Ok(resp) /\ ans.ok /\ (\E id \in {Null, IF ans.v.t = "obj" /\ Has(ans.v, sId) THEN Get(ans.v, sId) ELSE Null} : IsError(ans.v, id))
            ELSE resp.code = 500 \/ (Ok(resp) /\ ans.ok)

\* ---- arguments in forms and queries: texts
TextVerdict(s, b) ==
    CASE s.k = "int" -> LET n == WholeNumber(b) IN IF n.ok /\ Holds(s.w, n) THEN "yes"
                                                   ELSE IF b = <<>> THEN "no" ELSE IF Digit(b[1]) \/ (b[1] = 45 /\ Len(b) > 1 /\ Digit(b[2])) THEN "maybe" ELSE "no"
      [] s.k = "real" -> LET n == WholeNumber(b) IN IF n.ok /\ Digits(n.v) < 300 /\ Digits(n.v) > -300 THEN "yes"
                                                    ELSE IF b = <<>> THEN "no" ELSE IF Digit(b[1]) \/ b[1] \in {45, 46, 73, 78, 105, 110} THEN "maybe" ELSE "no"
      [] s.k \in {"str", "bool"} -> "yes"
      [] s.k = "opt" -> IF b = <<>> THEN "yes" ELSE IF s.of.k = "str" THEN "yes" ELSE LET n == WholeNumber(b) IN IF n.ok /\ Holds(s.of.w, n) THEN "yes" ELSE "maybe"
      [] OTHER -> "no"
TextValue(s, b) ==
    CASE s.k \in {"int", "real"} -> NumOf(b)
      [] s.k = "bool" -> [t |-> "bool", v |-> TRUE]
      [] s.k = "opt" -> IF b = <<>> THEN Null ELSE IF s.of.k = "int" THEN NumOf(b) ELSE [t |-> "str", v |-> b]
      [] OTHER -> [t |-> "str", v |-> b]
RECURSIVE FieldsVerdict(_, _)
FieldsVerdict(ms, fs) == IF fs = <<>> THEN "yes"
                         ELSE LET j == Find(ms, fs[1][1]) IN Both(IF j = 0 THEN "yes" ELSE TextVerdict(ms[j][2], fs[1][2]), FieldsVerdict(ms, Tail(fs)))
FieldsObject(ms, fs) == [t |-> "obj", v |-> [i \in 1..Len(fs) |-> LET j == Find(ms, fs[i][1]) IN <<fs[i][1], IF j = 0 THEN Null ELSE TextValue(ms[j][2], fs[i][2])>>]]

\* The outcome of a call with such arguments, and whether the reply that Returns allows (or Fails, if it failed) was sent
Called(m, text, calls, Returns(_), Fails) ==
    LET verdict == IF FT!WellEscaped(text) THEN FieldsVerdict(m.ps.ms, FT!Fields(text)) ELSE "maybe"
    IN CASE verdict = "yes" -> Len(calls) = 1 /\ CallIs(m, FieldsObject(m.ps.ms, FT!Fields(text)), calls[1])
                               /\ (IF calls[1].r.t = "throw" THEN Fails ELSE Returns(calls[1].r))
         [] verdict = "no" -> calls = <<>> /\ Fails
         [] OTHER -> IF calls = <<>> THEN Fails
                     ELSE Len(calls) = 1 /\ calls[1].m = m.m /\ (IF calls[1].r.t = "throw" THEN Fails ELSE Returns(calls[1].r))
Failure(resp) == resp.code \in {400, 404, 500}

Form(r, calls, resp) ==
    LET found == FoundMethods(methods, Tail(r.path), 47)
    IN \E i \in found :
        IF i = 0 THEN calls = <<>> /\ resp.code \in {400, 404, 204}
        ELSE \/ Called(methods[i], r.body, calls, LAMBDA x : resp.code \in {200, 204}, Failure(resp))
             \/ r.ctype # sFormType /\ calls = <<>> /\ Failure(resp)

\* How a result looks as the body of a reply
TextOf(s, x, b) ==
    CASE x.t = "void" -> b = <<>>
      [] x.t = "str" -> FT!Decode(b) = x.v \/ ~FT!Utf8Text(x.v, 1)
      [] x.t \in {"int", "real"} -> LET t == FT!Decode(b) IN WholeNumber(t).ok /\ Same(x, NumOf(t))
      [] x.t = "bool" -> x.v
      [] x.t = "null" -> b = <<>>
      [] x.t = "obj" -> LET fs == FT!Fields(b) IN Len(fs) = Len(x.v) /\ \A i \in 1..Len(fs) : fs[i][1] = x.v[i][1] /\ x.v[i][2].t = "int" /\ WholeNumber(fs[i][2]).ok /\ Same(x.v[i][2], NumOf(fs[i][2]))
      [] x.t = "odd" -> TRUE                 \* infinity and the like
      [] OTHER -> FALSE
\* Results the format has no way to express
Unwritable(x) == x.t \in {"arr", "obj", "null"} \/ (x.t = "bool" /\ ~x.v)
Page(path) == LET i == CHOOSE i \in 0..Len(pages) : (i > 0 => pages[i][1] = path) /\ (i = 0 => \A j \in 1..Len(pages) : pages[j][1] # path)
              IN IF i = 0 THEN [ok |-> FALSE, b |-> <<>>] ELSE [ok |-> TRUE, b |-> pages[i][2]]
GetRequest(r, calls, resp) ==
    LET q == First(r.path, 1, {63})
        path == IF q = 0 THEN r.path ELSE SubSeq(r.path, 1, q - 1)
        text == SubSeq(r.path, q + 1, Len(r.path))
        page == Page(path)
        found == IF q = 0 THEN {0} ELSE FoundMethods(methods, Tail(path), 47)
        pageSent == Ok(resp) /\ resp.body = page.b
    IN \E i \in found :
        IF i = 0 THEN calls = <<>> /\ (IF page.ok THEN pageSent ELSE IF q = 0 THEN resp.code = 404 ELSE (resp.code = 404 \/ (resp.code \in {200, 204} /\ resp.body = <<>>)))
        ELSE Called(methods[i], text, calls,
                    LAMBDA x : IF page.ok THEN pageSent
                               ELSE (Ok(resp) /\ TextOf(methods[i].res, x, resp.body)) \/ (Unwritable(x) /\ resp.code = 500),
                    IF page.ok THEN pageSent ELSE Failure(resp))

Request(r, calls, resp) ==
    IF r.method = "GET" THEN (IF r.path = <<>> \/ r.path[1] = 63 THEN calls = <<>> ELSE GetRequest(r, calls, resp))
    ELSE IF r.method # "POST" THEN calls = <<>> /\ resp.code = 501
    ELSE IF kind = "json" THEN Json(r, calls, resp)
    ELSE (IF r.path = <<>> THEN calls = <<>> ELSE Form(r, calls, resp))

\* ---- what was received explains what was called and sent; the bytes not attributed, and whether the connection has to go on
RECURSIVE Explains(_, _, _, _)
Explains(p, calls, out, more) ==
    LET r == H!Request(p)
    IN IF r.k = "more" THEN calls = <<>> /\ out = <<>> /\ more
       ELSE IF r.k = "odd" THEN H!Contains(p, H!sCRLFCRLF) \/ (calls = <<>> /\ out = <<>>)
       ELSE LET resp == H!Response(out)
            IN /\ resp.k = "resp"
               /\ \E n \in 0..Len(calls) :
                    /\ Request(r, SubSeq(calls, 1, n), resp)
                    /\ LET rest == SubSeq(calls, n + 1, Len(calls))
                           after == H!Drop(out, resp.total)
                       IN IF r.close THEN rest = <<>> /\ after = <<>> /\ ~more
                          ELSE \/ Explains(H!Drop(p, r.total), rest, after, more)
                               \/ ~more /\ rest = <<>> /\ after = <<>> /\ n > 0 /\ calls[n].r.t \in {"throw", "arr", "obj", "null", "bool"}    \* failed after the page was sent
                               \/ ~more /\ rest = <<>> /\ after = <<>> /\ n = 0 /\ r.method = "GET" /\ Page(SubSeq(r.path, 1, First(r.path, 1, {63}) - 1)).ok
RECURSIVE Remains(_)
Remains(p) == LET r == H!Request(p) IN IF r.k = "req" THEN Remains(H!Drop(p, r.total)) ELSE p

Receive(b) == pend' = pend \o b /\ ran' = <<>> /\ sent' = <<>> /\ UNCHANGED <<kind, methods, pages>>
CallOf(m, a, r) == ran' = Append(ran, [m |-> m, a |-> a, r |-> r]) /\ UNCHANGED <<kind, methods, pages, pend, sent>>
Send(b) == sent' = sent \o b /\ UNCHANGED <<kind, methods, pages, pend, ran>>
Return(more) == /\ (Explains(pend, ran, sent, more)) = TRUE
                /\ pend' = Remains(pend) /\ ran' = <<>> /\ sent' = <<>> /\ UNCHANGED <<kind, methods, pages>>
=============================================================================
