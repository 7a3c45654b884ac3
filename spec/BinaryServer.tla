----------------------------- MODULE BinaryServer -----------------------------
(* One connection of the binary protocol server, between the bytes received and the bytes sent, with the methods behind *)
(* it.  A request is <<identifier (IdLen bytes), total size (sz bytes), path (a byte per level), arguments>>, a response *)
(* <<identifier, total size, result>>.  What happens is determined by the byte stream alone.                             *)
(* A tree of methods is [kids |-> <<trees>>] or a method [args |-> <<types>>, res |-> type].                             *)
(* Types: <<"n", bytes, signed>> integers (values: 8 bytes), <<"b">> booleans, <<"s">> texts, <<"f8">> real numbers       *)
(* (values: 8 bytes), <<"l", type>> lists, <<"o", type>> optional values, <<"r", types>> records, <<"v">> nothing.        *)
EXTENDS BinaryCode, TLC
CONSTANTS IdLen
VARIABLES api, sz, big,      \* tree of methods, bytes of sizes, if the number format is big endian
          pend,              \* bytes received that do not belong to a request that was carried out
          phase,             \* "wait" (between reads), "work" (a read is being processed), "closed"
          exp, sent,         \* bytes that have to be sent during this read, and those already sent
          closing            \* the connection has to be closed
bvars == <<api, sz, big, pend, phase, exp, sent, closing>>

RECURSIVE Reversed(_)
Reversed(b) == IF b = <<>> THEN <<>> ELSE Append(Reversed(Tail(b)), b[1])
Num(b, be) == IF be THEN Reversed(b) ELSE b

\* ---- values
No == [ok |-> FALSE, v |-> <<>>, at |-> 0]
Yes(v, at) == [ok |-> TRUE, v |-> v, at |-> at]
Wide(b, signed) == LET fill == IF signed /\ b[Len(b)] >= 128 THEN 255 ELSE 0 IN [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE fill]

RECURSIVE DecodeAs(_, _, _, _, _), DecodeAll(_, _, _, _, _, _), DecodeList(_, _, _, _, _, _, _)
DecodeSize(b, at, s, be) == IF at + s - 1 > Len(b) THEN No ELSE Yes(SizeValue(Num(SubSeq(b, at, at + s - 1), be)), at + s)
DecodeAs(type, b, at, s, be) ==
    CASE type[1] = "n" -> IF at + type[2] - 1 > Len(b) THEN No
                          ELSE Yes(Wide(Num(SubSeq(b, at, at + type[2] - 1), be), type[3]), at + type[2])
      [] type[1] = "f8" -> IF at + 7 > Len(b) THEN No ELSE Yes(Num(SubSeq(b, at, at + 7), be), at + 8)
      [] type[1] = "b" -> IF at > Len(b) THEN No ELSE Yes(<<IF b[at] # 0 THEN 1 ELSE 0>>, at + 1)
      [] type[1] = "s" -> LET n == DecodeSize(b, at, s, be)
                          IN IF ~n.ok THEN No ELSE IF n.at + n.v - 1 > Len(b) THEN No ELSE Yes(SubSeq(b, n.at, n.at + n.v - 1), n.at + n.v)
      [] type[1] = "l" -> LET n == DecodeSize(b, at, s, be)
                          IN IF ~n.ok \/ n.v > Len(b) THEN No ELSE DecodeList(type[2], n.v, <<>>, b, n.at, s, be)
      [] type[1] = "o" -> IF at > Len(b) THEN No
                          ELSE IF b[at] = 0 THEN Yes(<<>>, at + 1)
                          ELSE LET d == DecodeAs(type[2], b, at + 1, s, be) IN IF d.ok THEN Yes(<<d.v>>, d.at) ELSE No
      [] type[1] = "r" -> DecodeAll(type[2], <<>>, b, at, s, be)
DecodeAll(types, acc, b, at, s, be) ==
    IF types = <<>> THEN Yes(acc, at)
    ELSE LET d == DecodeAs(types[1], b, at, s, be) IN IF d.ok THEN DecodeAll(Tail(types), Append(acc, d.v), b, d.at, s, be) ELSE No
DecodeList(type, n, acc, b, at, s, be) ==
    IF n = 0 THEN Yes(acc, at)
    ELSE LET d == DecodeAs(type, b, at, s, be) IN IF d.ok THEN DecodeList(type, n - 1, Append(acc, d.v), b, d.at, s, be) ELSE No

RECURSIVE EncodeAs(_, _, _, _), EncodeAll(_, _, _, _), EncodeList(_, _, _, _)
EncodeSize(n, s, be) == Num(SizeBytes(n, s), be)
EncodeAs(type, v, s, be) ==
    CASE type[1] = "n" -> Num(SubSeq(v, 1, type[2]), be)
      [] type[1] = "f8" -> Num(v, be)
      [] type[1] = "b" -> v
      [] type[1] = "s" -> EncodeSize(Len(v), s, be) \o v
      [] type[1] = "l" -> EncodeSize(Len(v), s, be) \o EncodeList(type[2], v, s, be)
      [] type[1] = "o" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o EncodeAs(type[2], v[1], s, be)
      [] type[1] = "r" -> EncodeAll(type[2], v, s, be)
      [] type[1] = "v" -> <<>>
EncodeAll(types, v, s, be) == IF types = <<>> THEN <<>> ELSE EncodeAs(types[1], v[1], s, be) \o EncodeAll(Tail(types), Tail(v), s, be)
EncodeList(type, v, s, be) == IF v = <<>> THEN <<>> ELSE EncodeAs(type, v[1], s, be) \o EncodeList(type, Tail(v), s, be)

\* ---- messages
IsMethod(tree) == "args" \in DOMAIN tree
\* Where a message body leads: the method, its path and where the arguments start
RECURSIVE Resolve(_, _, _, _)
Resolve(tree, b, at, path) ==
    IF IsMethod(tree) THEN [ok |-> TRUE, method |-> tree, path |-> path, at |-> at]
    ELSE IF at > Len(b) THEN [ok |-> FALSE]
    ELSE IF b[at] >= Len(tree.kids) THEN [ok |-> FALSE]
    ELSE Resolve(tree.kids[b[at] + 1], b, at + 1, Append(path, b[at]))

Header == IdLen + sz
\* What a byte string starts with: an incomplete request, one that cannot be carried out, or a request
Meaning(p) ==
    IF Len(p) < Header THEN [k |-> "more"]
    ELSE LET n == SizeValue(Num(SubSeq(p, IdLen + 1, Header), big))
         IN IF n < Header THEN [k |-> "bad"]
            ELSE IF Len(p) < n THEN [k |-> "more"]
            ELSE LET b == SubSeq(p, Header + 1, n)
                     r == Resolve(api, b, 1, <<>>)
                 IN IF ~r.ok THEN [k |-> "bad"]
                    ELSE LET d == DecodeAll(r.method.args, <<>>, b, r.at, sz, big)
                         IN IF ~d.ok THEN [k |-> "bad"]
                            ELSE [k |-> "req", id |-> SubSeq(p, 1, IdLen), method |-> r.method, path |-> r.path, args |-> d.v,
                                  excess |-> d.at <= Len(b), total |-> n]
Response(id, type, result) ==
    LET body == EncodeAs(type, result, sz, big)
        n == Header + Len(body)
    IN [fits |-> SizeFits(n, sz), b |-> id \o EncodeSize(n, sz, big) \o body]

BInit == api = [kids |-> <<>>] /\ sz = 2 /\ big = FALSE /\ pend = <<>> /\ phase = "wait" /\ exp = <<>> /\ sent = <<>> /\ closing = FALSE

Receive(b) == phase = "wait" /\ pend' = pend \o b /\ phase' = "work" /\ UNCHANGED <<api, sz, big, exp, sent, closing>>
\* A method is carried out, for the next request and no other
Runs(path, args) == /\ phase = "work" /\ ~closing
                    /\ LET m == Meaning(pend) IN (IF m.k = "req" THEN m.path = path /\ m.args = args ELSE FALSE)
Ran(path, args, result) ==
    /\ Runs(path, args)
    /\ LET m == Meaning(pend)
           r == Response(m.id, m.method.res, result)
       IN exp' = (IF r.fits THEN exp \o r.b ELSE exp) /\ closing' = ~r.fits /\ pend' = Drop(pend, m.total)
    /\ UNCHANGED <<api, sz, big, phase, sent>>
Failed(path, args) ==
    /\ Runs(path, args) /\ closing' = TRUE /\ pend' = Drop(pend, Meaning(pend).total)
    /\ UNCHANGED <<api, sz, big, phase, exp, sent>>
Send(b) == /\ phase = "work" /\ IsPrefixOf(sent \o b, exp) /\ sent' = sent \o b
           /\ UNCHANGED <<api, sz, big, pend, phase, exp, closing>>
\* Everything that was received is dealt with
Return(more) ==
    /\ phase = "work" /\ sent = exp
    /\ LET m == Meaning(pend)
       IN IF closing THEN ~more
          ELSE CASE m.k = "more" -> more
                 [] m.k = "bad" -> ~more
                 [] m.k = "req" -> m.excess /\ ~more     \* more data than arguments, this may be considered an error
    /\ phase' = (IF more THEN "wait" ELSE "closed") /\ exp' = <<>> /\ sent' = <<>>
    /\ UNCHANGED <<api, sz, big, pend, closing>>
=============================================================================
