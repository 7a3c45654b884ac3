------------------------------ MODULE HttpServer ------------------------------
(* One connection of the HTTP server, between the bytes received and the bytes sent, with the application behind it.   *)
(* What happens is determined by the byte stream alone: the pieces it arrives in only decide when.                     *)
EXTENDS HttpMsg, TLC

VARIABLES pend,      \* bytes received and not attributed to an answered request
          phase,     \* "wait": between reads; "work": a read is being processed; "app": the application is handling a request;
                     \* "closed"; "odd": the stream is not a sequence of well-formed requests, only safety is required
          exp,       \* replies that have to be in what was sent since the last check, in order
          sent,      \* bytes sent since the last check
          closing    \* the connection has to be closed at the end of this read

vars == <<pend, phase, exp, sent, closing>>

Init == pend = <<>> /\ phase = "wait" /\ exp = <<>> /\ sent = <<>> /\ closing = FALSE

Receive(b) == /\ phase = "wait"
              /\ pend' = pend \o b
              /\ phase' = "work"
              /\ UNCHANGED <<exp, sent, closing>>

Reply(code, ctype, body) == [kind |-> "full", code |-> code, ctype |-> ctype, body |-> body]

\* Is a sent byte string exactly this reply, followed by rest?  Returns the number of its bytes or -1
ReplySize(b, r) ==
    IF r.kind = "partial"
    THEN \* Either an error instead of the reply, or the beginning of the reply
         LET got == Response(b)
         IN IF got.k = "resp" /\ got.code = 500 THEN got.total
            ELSE IF got.k = "resp" /\ got.code = 200 /\ got.length = r.announced /\ got.body = r.body THEN got.total
            ELSE IF ~(got.k = "more") THEN -1
            ELSE LET hs == ResponseHeaders(b, Line(b, 1).at + 2)
                     body == SubSeq(b, hs.body, Len(b))
                 IN IF Line(b, 1).k # "line" \/ hs.k # "done" THEN Len(b)     \* cut in the header
                    ELSE IF hs.h.length = r.announced /\ IsPrefixOf(body, r.body) THEN Len(b) ELSE -1
    ELSE LET got == Response(b)
         IN IF /\ got.k = "resp" /\ got.code = r.code
               /\ (got.code = 200 => got.body = r.body /\ got.ctype = r.ctype)
            THEN got.total ELSE -1

\* What follows these replies in a sent byte string; ok is FALSE if they are not there
RECURSIVE After(_, _)
After(b, replies) ==
    IF replies = <<>> THEN [ok |-> TRUE, rest |-> b]
    ELSE LET n == IF b = <<>> THEN -1 ELSE ReplySize(b, Head(replies))
         IN IF n <= 0 THEN [ok |-> FALSE, rest |-> b] ELSE After(Drop(b, n), Tail(replies))
Matches(b, replies) == LET a == After(b, replies) IN a.ok /\ a.rest = <<>>

\* Requests that the application is not asked about, answered in order until one that it is asked about
RECURSIVE SkipOthers(_, _)
SkipOthers(p, replies) ==
    LET r == Request(p)
    IN IF r.k = "req" /\ r.method = "other" /\ ~r.close
       THEN SkipOthers(Drop(p, r.total), Append(replies, Reply(501, <<>>, <<>>)))
       ELSE [pend |-> p, exp |-> replies, req |-> r]

HeaderComplete(p) == Contains(p, sCRLFCRLF)

\* The application is called: for the first request it is responsible for, and everything before was answered
Call(method, path, ctype, body) ==
    /\ phase = "work" /\ ~closing
    /\ LET s == SkipOthers(pend, exp)
       IN \/ /\ s.req.k = "req" /\ s.req.method = method /\ s.req.path = path
             /\ (method = "POST" => s.req.ctype = ctype /\ s.req.body = body)
             /\ Matches(sent, s.exp)
             /\ pend' = s.pend
             /\ phase' = "app"
          \/ \* Not well-formed: asking the application is only wrong as long as the header is not complete
             /\ s.req.k = "odd" /\ HeaderComplete(s.pend) /\ ~Unusable(s.pend)
             /\ After(sent, s.exp).ok
             /\ pend' = s.pend
             /\ phase' = "oddwork"
    /\ exp' = <<>> /\ sent' = <<>> /\ UNCHANGED closing

\* The application is done with it in one of these ways
Outcome(what, ctype, body, announced) ==
    /\ phase = "app"
    /\ LET r == Request(pend)
           reply == CASE what = "reply" -> Reply(200, ctype, body)
                      [] what = "none" -> Reply(204, <<>>, <<>>)
                      [] what = "refuse" -> Reply(IF r.method = "GET" THEN 404 ELSE 400, <<>>, <<>>)
                      [] what = "fail" -> Reply(500, <<>>, <<>>)
                      [] what = "replyfail" -> Reply(200, ctype, body)
                      [] what = "partial" -> [kind |-> "partial", announced |-> announced, body |-> body]
       IN /\ exp' = <<reply>>
          /\ closing' = (r.close \/ what \in {"replyfail", "partial"})
          /\ pend' = Drop(pend, r.total)
    /\ phase' = "work"
    /\ UNCHANGED sent

Send(b) == /\ phase \in {"work", "app"}
           \* Nothing is sent unless a request's header is complete
           /\ phase = "work" => exp # <<>> \/ HeaderComplete(pend)
           /\ sent' = sent \o b
           /\ UNCHANGED <<pend, phase, exp, closing>>

\* The read is processed; nothing that could have been answered is left
Return(more) ==
    /\ phase = "work"
    /\ LET s == IF closing THEN [pend |-> <<>>, exp |-> exp, req |-> NoReq("more")] ELSE SkipOthers(pend, exp)
           last == s.req.k = "req" /\ s.req.method = "other"      \* with a wish to close
           replies == IF last THEN Append(s.exp, Reply(501, <<>>, <<>>)) ELSE s.exp
           partial == exp # <<>> /\ exp[1].kind = "partial"
           error == partial /\ Response(sent).k = "resp" /\ Response(sent).code = 500
       IN IF s.req.k = "odd"
          THEN /\ LET a == After(sent, replies)
                  IN /\ a.ok /\ (a.rest # <<>> => HeaderComplete(s.pend))
                     \* What cannot be interpreted is refused or ends the connection
                     /\ (HeaderComplete(s.pend) /\ Unusable(s.pend) /\ more => Response(a.rest).k = "resp" /\ Response(a.rest).code >= 400)
               /\ pend' = s.pend
               /\ phase' = IF more THEN "odd" ELSE "closed"
          ELSE /\ (s.req.k = "more" \/ last)
               /\ Matches(sent, replies)
               /\ IF partial /\ error THEN TRUE ELSE more = ~(closing \/ last)
               /\ pend' = s.pend
               /\ phase' = IF more THEN "wait" ELSE "closed"
    /\ exp' = <<>> /\ sent' = <<>> /\ closing' = FALSE

\* The rest of a stream that is not a sequence of well-formed requests: anything but an early answer
OddReturn(more) == phase = "oddwork" /\ phase' = (IF more THEN "odd" ELSE "closed") /\ UNCHANGED <<pend, exp, sent, closing>>
OddReceive(b) == phase = "odd" /\ phase' = "oddwork" /\ pend' = pend \o b /\ UNCHANGED <<exp, sent, closing>>
OddAny == phase = "oddwork" /\ HeaderComplete(pend) /\ UNCHANGED vars

TypeOK == phase \in {"wait", "work", "app", "closed", "odd", "oddwork"} /\ closing \in BOOLEAN
\* Holds if the peer only sends well-formed requests
NeverOdd == phase \notin {"odd", "oddwork"}
\* Between reads nothing is owed to the peer
NothingOwed == phase = "wait" => exp = <<>> /\ sent = <<>> /\ Request(pend).k = "more"
=============================================================================
