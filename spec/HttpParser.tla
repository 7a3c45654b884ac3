------------------------------ MODULE HttpParser ------------------------------
(* The incremental strategy of the server: an unfinished header is parsed again from its start with fresh state when    *)
(* more bytes arrive, a finished header is remembered while its body arrives, and everything is forgotten between       *)
(* requests.  TLC tries every division of some streams and compares the requests handed to the application with those   *)
(* of the undivided stream.                                                                                             *)
EXTENDS HttpMsg
Streams == <<
  <<71, 69, 84, 32, 47, 97, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 13, 10, 80, 79, 83, 84, 32, 47, 98, 32, 72, 84, 84, 80, 47, 49, 46, 48, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104, 58, 51, 13, 10, 13, 10, 120, 121, 122>>,  \* 'GET /a HTTP/1.1\r\n\r\nPOST /b HTTP/1.0\r\nContent-Length:3\r\n\r\nxyz'
  <<80, 79, 83, 84, 32, 47, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101, 58, 32, 116, 13, 10, 99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104, 58, 32, 50, 13, 10, 13, 10, 13, 10, 80, 79, 83, 84, 32, 47, 99, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104, 58, 32, 48, 13, 10, 13, 10, 71, 69, 84, 32, 47, 100, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 13, 10>>,  \* 'POST / HTTP/1.1\r\ncontent-type: t\r\ncontent-length: 2\r\n\r\n\r\nPOST /c HTTP/1.1\r\nContent-Length: 0\r\n\r\nGET /d HTTP/1.1\r\n\r\n'
  <<80, 85, 84, 32, 47, 101, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104, 58, 32, 50, 48, 13, 10, 13, 10, 71, 69, 84, 32, 47, 110, 111, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 13, 10, 71, 69, 84, 32, 47, 102, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 67, 111, 110, 110, 101, 99, 116, 105, 111, 110, 58, 32, 99, 108, 111, 115, 101, 13, 10, 13, 10, 71, 69, 84, 32, 47, 103, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 13, 10>>  \* 'PUT /e HTTP/1.1\r\nContent-Length: 20\r\n\r\nGET /no HTTP/1.1\r\n\r\nGET /f HTTP/1.1\r\nConnection: close\r\n\r\nGET /g HTTP/1.1\r\n\r\n'
  >>
VARIABLES stream, arrived, consumed, st, calls, phase
vars == <<stream, arrived, consumed, st, calls, phase>>
Fresh == [bodySize |-> -1, position |-> 0, method |-> "", path |-> <<>>, ctype |-> <<>>, close |-> FALSE]
S == Streams[stream]
Input == SubSeq(S, consumed + 1, arrived)

\* The requests of the whole stream
RECURSIVE Reference(_)
Reference(b) == LET r == Request(b)
                IN IF r.k # "req" THEN <<>>
                   ELSE <<[m |-> r.method, path |-> r.path, type |-> r.ctype, body |-> r.body]>> \o (IF r.close THEN <<>> ELSE Reference(Drop(b, r.total)))

Init == stream \in 1..Len(Streams) /\ arrived = 0 /\ consumed = 0 /\ st = Fresh /\ calls = <<>> /\ phase = "wait"
Arrive == phase = "wait" /\ \E n \in 1..(Len(S) - arrived) : arrived' = arrived + n /\ phase' = "work" /\ UNCHANGED <<stream, consumed, st, calls>>

ParsedHeader ==     \* the state after parsing the header at the start of the input, or Fresh if it is not complete
    LET b == Input
        line == Line(b, 1)
        text == SubSeq(b, 1, line.at - 1)
        s1 == First(text, 1, {SP})
        s2 == First(text, s1 + 1, {SP})
        hs == Headers(b, line.at + 2, NoHeaders)
        method == SubSeq(text, 1, s1 - 1)
    IN IF line.k # "line" \/ hs.k # "done" THEN Fresh
       ELSE [bodySize |-> IF hs.h.length = -1 THEN 0 ELSE hs.h.length, position |-> hs.body - 1,
             method |-> IF method = sGET THEN "GET" ELSE IF method = sPOST THEN "POST" ELSE "other",
             path |-> SubSeq(text, s1 + 1, s2 - 1), ctype |-> hs.h.ctype, close |-> hs.h.close]
Respond ==
    /\ phase = "work"
    /\ LET s == IF st.bodySize = -1 THEN ParsedHeader ELSE st
       IN IF s.bodySize = -1 THEN st' = Fresh /\ phase' = "wait" /\ UNCHANGED <<consumed, calls>>
          ELSE IF Len(Input) < s.position + s.bodySize THEN st' = s /\ phase' = "wait" /\ UNCHANGED <<consumed, calls>>
          ELSE /\ consumed' = consumed + s.position + s.bodySize
               /\ calls' = Append(calls, [m |-> s.method, path |-> s.path, type |-> s.ctype,
                                          body |-> SubSeq(Input, s.position + 1, s.position + s.bodySize)])
               /\ st' = Fresh
               /\ phase' = IF s.close THEN "closed" ELSE IF consumed' = arrived THEN "wait" ELSE "work"
    /\ UNCHANGED <<stream, arrived>>
Next == Arrive \/ Respond
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SameRequests == LET ref == Reference(S) IN
    /\ Len(calls) <= Len(ref) /\ calls = SubSeq(ref, 1, Len(calls))
    /\ (phase = "wait" /\ arrived = Len(S)) => calls = ref
AllAnswered == <>(phase = "closed" \/ (phase = "wait" /\ arrived = Len(S)))
=============================================================================
