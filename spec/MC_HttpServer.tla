---------------------------- MODULE MC_HttpServer ----------------------------
(* A server that parses the way the implementation does, fed with every sequence of the tokens below in every division,  *)
(* with an application that answers, refuses or fails.  Each of its actions has to be one HttpServer permits: where one *)
(* is not, TLC reports a deadlock.                                                                                      *)
(* Bug: "swallow" lets the name of a header extend over line ends, "cr" does not look at what follows a CR,             *)
(* "unsized" takes a POST request without length for one without body.                                                   *)
EXTENDS HttpServer
CONSTANTS Bug, Most, Whole
Line1 == sGET \o <<SP, 47, SP>> \o sHTTP11 \o <<CR, LF>>
Tokens == IF Whole THEN { Line1, <<CR, LF>>, <<CR>>, <<97, 58, SP, 98>>, <<97>>, <<97, 58, 98, CR>>, sConnection \o <<58>> \o sClose, <<9, SP>>, <<0>> } ELSE
          { sGET \o <<SP, 47>>, sPOST \o <<SP, 47>>, <<SP>> \o sHTTP11, <<88, SP, 47>>, <<CR, LF>>, <<CR>>, <<LF>>, <<97, 98>>, <<97, 58, SP, 98>>, sContentLength \o <<58, SP, 49>>,
            sContentLength \o <<58, 120>>, sConnection \o <<58>> \o sClose }
\* ---- the parser of the implementation: what it makes of the bytes at the start of b
R(k) == [k |-> k, method |-> "", path |-> <<>>, ctype |-> <<>>, body |-> <<>>, total |-> 0, close |-> FALSE]
RECURSIVE Skip(_, _, _)
Skip(b, i, set) == IF i <= Len(b) /\ b[i] \in set THEN Skip(b, i + 1, set) ELSE i
RECURSIVE ParseHeaders(_, _, _)
ParseHeaders(b, pos, acc) ==
    IF pos > Len(b) THEN [k |-> "more", h |-> acc, at |-> 0]
    ELSE IF b[pos] = CR
    THEN IF pos = Len(b) THEN [k |-> "more", h |-> acc, at |-> 0]
         ELSE IF b[pos + 1] # LF THEN [k |-> "close", h |-> acc, at |-> 0]
         ELSE [k |-> "done", h |-> acc, at |-> pos + 2]
    ELSE LET start == Skip(b, pos, {SP, TAB})
             stop == First(b, start, IF Bug = "swallow" THEN {SP, TAB, 58} ELSE {SP, TAB, 58, CR, LF})
             value == Skip(b, stop, {SP, TAB, 58})
             end == First(b, value, {CR})
             name == Lower(SubSeq(b, start, stop - 1))
             text == TrimRight(SubSeq(b, value, end - 1))
             next == end + 2
         IN IF start > Len(b) \/ stop = 0 THEN [k |-> "more", h |-> acc, at |-> 0]
            ELSE IF b[stop] \in {CR, LF} THEN [k |-> "close", h |-> acc, at |-> 0]
            ELSE IF value > Len(b) THEN [k |-> "more", h |-> acc, at |-> 0]
            ELSE IF \A i \in stop..(value - 1) : b[i] # 58 THEN [k |-> "close", h |-> acc, at |-> 0]
            ELSE IF end = 0 THEN [k |-> "more", h |-> acc, at |-> 0]
            ELSE IF end = Len(b) THEN [k |-> "more", h |-> acc, at |-> 0]
            ELSE IF Bug # "cr" /\ b[end + 1] # LF THEN [k |-> "close", h |-> acc, at |-> 0]
            ELSE IF name = sContentLength
            THEN IF AllDigits(text) /\ Len(text) < 10 THEN ParseHeaders(b, next, [acc EXCEPT !.length = Decimal(text)])
                 ELSE [k |-> "close", h |-> acc, at |-> 0]
            ELSE IF name = sConnection THEN ParseHeaders(b, next, [acc EXCEPT !.close = @ \/ HasOption(Lower(text), sClose)])
            ELSE ParseHeaders(b, next, acc)
Parsed(b) ==
    LET cr == First(b, 1, {CR})
        text == SubSeq(b, 1, cr - 1)
        s1 == First(text, 1, {SP})
        s2 == First(text, s1 + 1, {SP})
        method == SubSeq(text, 1, s1 - 1)
        proto == SubSeq(text, s2 + 1, Len(text))
        kind == IF proto \notin {sHTTP11, sHTTP10} THEN "other" ELSE IF method = sGET THEN "GET" ELSE IF method = sPOST THEN "POST" ELSE "other"
    IN IF cr = 0 THEN R("more")
       ELSE IF s1 = 0 \/ s2 = 0 THEN R("close")
       ELSE IF cr = Len(b) THEN R("more")
       ELSE IF b[cr + 1] # LF THEN R("close")
       ELSE LET hs == ParseHeaders(b, cr + 2, NoHeaders)
                length == IF hs.h.length = -1 THEN 0 ELSE hs.h.length
            IN IF hs.k # "done" THEN R(hs.k)
               ELSE IF kind = "POST" /\ hs.h.length = -1 /\ Bug # "unsized" THEN R("close")
               ELSE IF Len(b) < hs.at - 1 + length THEN R("more")
               ELSE [k |-> "req", method |-> kind, path |-> SubSeq(text, s1 + 1, s2 - 1), ctype |-> <<>>, body |-> SubSeq(b, hs.at, hs.at - 1 + length),
                     total |-> hs.at - 1 + length, close |-> hs.h.close]
\* ---- the server
VARIABLES buffer,    \* what it has received and not consumed
          now,       \* "idle", "busy", "asked" (the application has it), "answer" (something to be sent), "end"
          later,     \* is the connection to be closed
          count, total   \* tokens fed in, and bytes (the history does not matter otherwise)
mvars == <<vars, buffer, now, later, count, total>>
Said(code, text) == sHttpPrefix \o <<48 + code \div 100, 48 + ((code \div 10) % 10), 48 + (code % 10), SP>> \o text \o <<CR, LF>>
Sized == sContentLength \o <<58, 49, CR, LF, CR, LF, 98>>
Bytes200 == Said(200, <<>>) \o sContentLength \o <<58, 50, CR, LF>> \o sContentType \o <<58, 116, CR, LF, CR, LF, 120, 121>>
BytesOf(code) == IF code = 200 THEN Bytes200 ELSE IF code = 204 THEN Said(204, <<>>) \o <<CR, LF>> ELSE Said(code, <<>>) \o Sized
MInit == Init /\ buffer = <<>> /\ now = "idle" /\ later = 0 /\ count = 0 /\ total = 0
Feed == /\ now = "idle" /\ count < Most
        /\ \E n \in {x \in {1, 2} : x <= Most - count} : \E ts \in [1..n -> Tokens] :
             /\ LET b == IF n = 1 THEN ts[1] ELSE ts[1] \o ts[2]
                IN /\ buffer' = buffer \o b /\ count' = count + n /\ now' = "busy" /\ total' = 0 /\ later' = 0
                   /\ (Receive(b) \/ OddReceive(b))
Work == /\ now = "busy"
        /\ LET p == IF later = 1 THEN R("close") ELSE Parsed(buffer)
           IN CASE p.k = "more" -> now' = "idle" /\ (Return(TRUE) \/ OddReturn(TRUE)) /\ UNCHANGED <<buffer, later, total>>
                [] p.k = "close" -> now' = "end" /\ (Return(FALSE) \/ OddReturn(FALSE)) /\ UNCHANGED <<buffer, later, total>>
                [] OTHER -> IF p.method = "other"
                            THEN now' = "busy" /\ (Send(BytesOf(501)) \/ (OddAny /\ phase' = phase)) /\ buffer' = Drop(buffer, p.total) /\ later' = (IF p.close THEN 1 ELSE 0) /\ UNCHANGED total
                            ELSE /\ now' = "asked" /\ (Call(p.method, p.path, p.ctype, p.body) \/ OddAny)
                                 /\ buffer' = Drop(buffer, p.total) /\ later' = (IF p.close THEN 1 ELSE 0) /\ total' = IF p.method = "GET" THEN 404 ELSE 400
        /\ UNCHANGED count
Decide == /\ now = "asked" /\ now' = "answer"
          /\ \/ (Outcome("reply", <<116>>, <<120, 121>>, 2) \/ OddAny) /\ total' = 200
             \/ (Outcome("none", <<>>, <<>>, 0) \/ OddAny) /\ total' = 204
             \/ (Outcome("refuse", <<>>, <<>>, 0) \/ OddAny) /\ UNCHANGED total
             \/ (Outcome("fail", <<>>, <<>>, 0) \/ OddAny) /\ total' = 500
          /\ UNCHANGED <<buffer, later, count>>
Answer == now = "answer" /\ now' = "busy" /\ (Send(BytesOf(total)) \/ OddAny) /\ UNCHANGED <<buffer, later, count, total>>
Over == (now = "end" \/ (now = "idle" /\ count = Most)) /\ UNCHANGED mvars
MSpec == MInit /\ [][Feed \/ Work \/ Decide \/ Answer \/ Over]_mvars
===============================================================================
