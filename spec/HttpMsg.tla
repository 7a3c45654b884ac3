-------------------------------- MODULE HttpMsg --------------------------------
(* HTTP messages as byte strings: what a complete, well-formed message at the start of a byte string is.               *)
(* A message is "odd" when it is not well-formed in the strict sense used here; for these the specification of the     *)
(* server only demands safety.                                                                                         *)
EXTENDS Bytes, Ascii

TokenByte(c) == Digit(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c \in {45, 95}
Visible(c) == c > 32 /\ c # 127

\* A line starting at from: where its CR is, or whether more bytes are needed, or whether it is odd
Line(b, from) ==
    LET cr == First(b, from, {CR, LF, 0})
    IN IF cr = 0 THEN [k |-> "more", at |-> Len(b) + 1]
       ELSE IF b[cr] # CR THEN [k |-> "odd", at |-> 0]
       ELSE IF cr = Len(b) THEN [k |-> "more", at |-> cr]
       ELSE IF b[cr + 1] # LF THEN [k |-> "odd", at |-> 0]
       ELSE [k |-> "line", at |-> cr]

\* One header line b[from..to]: its name in lower case and its value
Header(b, from, to) ==
    LET colon == First(SubSeq(b, from, to), 1, {58})
        text == SubSeq(b, from, to)
        name == SubSeq(text, 1, colon - 1)
        value == TrimLeft(SubSeq(text, colon + 1, Len(text)))
    IN IF colon < 2 \/ ~(\A i \in 1..Len(name) : TokenByte(name[i])) \/ (value # <<>> /\ (value[1] = 58 \/ value[Len(value)] \in {SP, TAB}))
       THEN [k |-> "odd", name |-> <<>>, value |-> <<>>]
       ELSE [k |-> "ok", name |-> Lower(name), value |-> value]

\* May the text be the beginning of a well-formed header line?
PartialHeaderOk(text) ==
    LET colon == First(text, 1, {58})
        name == IF colon = 0 THEN text ELSE SubSeq(text, 1, colon - 1)
        value == IF colon = 0 THEN <<>> ELSE TrimLeft(SubSeq(text, colon + 1, Len(text)))
    IN colon # 1 /\ (\A i \in 1..Len(name) : TokenByte(name[i])) /\ (value # <<>> => value[1] # 58)

\* Is it one of the options separated by commas?
RECURSIVE HasOption(_, _)
HasOption(value, option) == LET comma == First(value, 1, {44})
                            IN IF comma = 0 THEN TrimRight(TrimLeft(value)) = option
                               ELSE TrimRight(TrimLeft(SubSeq(value, 1, comma - 1))) = option \/ HasOption(SubSeq(value, comma + 1, Len(value)), option)
\* Digits without the zeros at their beginning
RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d

NoHeaders == [length |-> -1, ctype |-> <<>>, hasType |-> FALSE, close |-> FALSE]
\* Headers from position from on: what they say and where the body starts
RECURSIVE Headers(_, _, _)
Headers(b, from, acc) ==
    LET line == Line(b, from)
    IN IF line.k = "more" /\ (~PartialHeaderOk(SubSeq(b, from, line.at - 1)) \/ (line.at <= Len(b) /\ line.at > from /\ Header(b, from, line.at - 1).k = "odd")) THEN [k |-> "odd", body |-> 0, h |-> acc]
       ELSE IF line.k # "line" THEN [k |-> line.k, body |-> 0, h |-> acc]
       ELSE IF line.at = from THEN [k |-> "done", body |-> from + 2, h |-> acc]
       ELSE LET h == Header(b, from, line.at - 1)
            IN IF h.k = "odd" THEN [k |-> "odd", body |-> 0, h |-> acc]
               ELSE IF h.name = sContentLength
               THEN IF AllDigits(h.value) /\ Len(NoZeros(h.value)) <= 8 /\ acc.length = -1
                    THEN Headers(b, line.at + 2, [acc EXCEPT !.length = Decimal(NoZeros(h.value))])
                    ELSE [k |-> "odd", body |-> 0, h |-> acc]
               ELSE IF h.name = sContentType
               THEN IF acc.hasType THEN [k |-> "odd", body |-> 0, h |-> acc]
                    ELSE Headers(b, line.at + 2, [acc EXCEPT !.ctype = h.value, !.hasType = TRUE])
               ELSE IF h.name = sConnection
               THEN Headers(b, line.at + 2, [acc EXCEPT !.close = @ \/ HasOption(Lower(h.value), sClose)])
               ELSE IF h.name = sTransferEncoding THEN [k |-> "odd", body |-> 0, h |-> acc]
               ELSE Headers(b, line.at + 2, acc)

\* In responses, spaces after a value are tolerated (the server leaves room for the length)
RECURSIVE ResponseHeadersFrom(_, _, _)
ResponseHeadersFrom(b, from, acc) ==
    LET line == Line(b, from)
    IN IF line.k # "line" THEN [k |-> line.k, body |-> 0, h |-> acc]
       ELSE IF line.at = from THEN [k |-> "done", body |-> from + 2, h |-> acc]
       ELSE LET to == from - 1 + Len(TrimRight(SubSeq(b, from, line.at - 1)))
                h == Header(b, from, to)
            IN IF h.k = "odd" THEN [k |-> "odd", body |-> 0, h |-> acc]
               ELSE IF h.name = sContentLength
               THEN IF AllDigits(h.value) /\ Len(h.value) <= 8 /\ acc.length = -1
                    THEN ResponseHeadersFrom(b, line.at + 2, [acc EXCEPT !.length = Decimal(h.value)])
                    ELSE [k |-> "odd", body |-> 0, h |-> acc]
               ELSE IF h.name = sContentType
               THEN ResponseHeadersFrom(b, line.at + 2, [acc EXCEPT !.ctype = h.value])
               ELSE ResponseHeadersFrom(b, line.at + 2, acc)
ResponseHeaders(b, from) == ResponseHeadersFrom(b, from, NoHeaders)

NoReq(kind) == [k |-> kind, method |-> "", path |-> <<>>, ctype |-> <<>>, body |-> <<>>, total |-> 0, close |-> FALSE, headerDone |-> FALSE]

PartialRequestLineOk(text) ==
    /\ \A i \in 1..Len(text) : text[i] >= 32
    /\ (text # <<>> => text[1] # SP)
    /\ \A i \in 1..(Len(text) - 1) : ~(text[i] = SP /\ text[i + 1] = SP)

RequestLineOk(text) ==
    LET s1 == First(text, 1, {SP})
        s2 == IF s1 = 0 THEN 0 ELSE First(text, s1 + 1, {SP})
    IN s1 >= 2 /\ s2 > s1 + 1 /\ s2 < Len(text) /\ PartialRequestLineOk(text)

\* The request at the start of b: "more" bytes are needed, it is "odd", or it is complete ("req")
Request(b) ==
    LET line == Line(b, 1)
    IN IF line.k = "more" /\ (~PartialRequestLineOk(SubSeq(b, 1, line.at - 1)) \/ (line.at <= Len(b) /\ ~RequestLineOk(SubSeq(b, 1, line.at - 1)))) THEN NoReq("odd")
       ELSE IF line.k # "line" THEN NoReq(line.k)
       ELSE
       LET text == SubSeq(b, 1, line.at - 1)
           s1 == First(text, 1, {SP})
           s2 == IF s1 = 0 THEN 0 ELSE First(text, s1 + 1, {SP})
           method == SubSeq(text, 1, s1 - 1)
           path == SubSeq(text, s1 + 1, s2 - 1)
           protocol == SubSeq(text, s2 + 1, Len(text))
           kind == IF protocol \notin {sHTTP11, sHTTP10} THEN "other"
                   ELSE IF method = sGET THEN "GET" ELSE IF method = sPOST THEN "POST" ELSE "other"
       IN IF ~RequestLineOk(text) THEN NoReq("odd")
          ELSE
          LET hs == Headers(b, line.at + 2, NoHeaders)
          IN IF hs.k # "done" THEN NoReq(hs.k)
             ELSE IF kind = "POST" /\ hs.h.length = -1 THEN [NoReq("odd") EXCEPT !.headerDone = TRUE]
             ELSE
             LET length == IF hs.h.length = -1 THEN 0 ELSE hs.h.length
                 total == hs.body - 1 + length
             IN IF Len(b) < total THEN [NoReq("more") EXCEPT !.headerDone = TRUE]
                ELSE [k |-> "req", method |-> kind, path |-> path, ctype |-> hs.h.ctype,
                      body |-> SubSeq(b, hs.body, total), total |-> total, close |-> hs.h.close, headerDone |-> TRUE]

\* Does a complete header at the start of b make it impossible to tell what is requested or where the request ends?
\* (Only the plainest cases; whatever is merely unusual is "odd" and can be tolerated or not.)
BareCr(b, from) == LET cr == First(b, from, {CR, LF, 0}) IN cr # 0 /\ cr < Len(b) /\ b[cr] = CR /\ b[cr + 1] # LF
RECURSIVE UnusableLines(_, _, _, _)
UnusableLines(b, from, post, sized) ==
    LET line == Line(b, from)
        text == SubSeq(b, from, line.at - 1)
        colon == First(text, 1, {58})
        name == Lower(TrimLeft(TrimRight(SubSeq(text, 1, colon - 1))))
        value == TrimRight(TrimLeft(SubSeq(text, colon + 1, Len(text))))
        plain == value = <<>> \/ (value[1] \notin {58, 45} /\ ~AllDigits(value))
    IN IF line.k # "line" THEN BareCr(b, from)
       ELSE IF line.at = from THEN post /\ ~sized
       ELSE \/ colon = 0
            \/ name = sContentLength /\ plain
            \/ UnusableLines(b, line.at + 2, post, sized \/ name = sContentLength)
Unusable(b) ==
    LET line == Line(b, 1)
        text == SubSeq(b, 1, line.at - 1)
        s1 == First(text, 1, {SP})
        s2 == IF s1 = 0 THEN 0 ELSE First(text, s1 + 1, {SP})
    IN IF line.k # "line" THEN BareCr(b, 1) ELSE (s2 = 0 \/ UnusableLines(b, line.at + 2, SubSeq(text, 1, s1 - 1) = sPOST /\ SubSeq(text, s2 + 1, Len(text)) \in {sHTTP11, sHTTP10}, FALSE))

NoResp(kind) == [k |-> kind, code |-> 0, ctype |-> <<>>, body |-> <<>>, total |-> 0, length |-> -1]
\* The response at the start of b
Response(b) ==
    LET line == Line(b, 1)
    IN IF line.k # "line" THEN NoResp(line.k)
       ELSE IF ~(line.at > 13 /\ IsPrefixOf(sHttpPrefix, b) /\ AllDigits(SubSeq(b, 10, 12)) /\ b[13] = SP) THEN NoResp("odd")
       ELSE
       LET hs == ResponseHeaders(b, line.at + 2)
           code == Decimal(SubSeq(b, 10, 12))
           length == IF hs.h.length = -1 THEN 0 ELSE hs.h.length
           total == hs.body - 1 + length
       IN IF hs.k # "done" THEN NoResp(hs.k)
          ELSE IF hs.h.length = -1 /\ code # 204 THEN NoResp("odd")
          ELSE IF hs.h.length > 0 /\ code = 204 THEN NoResp("odd")
          ELSE IF Len(b) < total THEN NoResp("more")
          ELSE [k |-> "resp", code |-> code, ctype |-> hs.h.ctype, body |-> SubSeq(b, hs.body, total), total |-> total, length |-> hs.h.length]
=============================================================================
