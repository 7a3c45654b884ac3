------------------------------- MODULE JsonText -------------------------------
(* JSON texts (RFC 8259) and the values they denote.  A value is a record with the field t:                            *)
(*   null | bool v | num int neg v | str v (UTF-8 bytes) | arr v (sequence) | obj v (sequence of <<name, value>>)      *)
EXTENDS Dec, Ascii

Blank == {32, 9, 10, 13}
RECURSIVE SkipBlank(_, _)
SkipBlank(b, i) == IF i <= Len(b) /\ b[i] \in Blank THEN SkipBlank(b, i + 1) ELSE i

HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Hex4(b, i) == IF i + 3 > Len(b) \/ \E k \in i..(i + 3) : HexVal(b[k]) < 0 THEN -1
              ELSE HexVal(b[i]) * 4096 + HexVal(b[i + 1]) * 256 + HexVal(b[i + 2]) * 16 + HexVal(b[i + 3])
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Bad == [ok |-> FALSE, end |-> 0, v |-> [t |-> "null"]]
Good(v, end) == [ok |-> TRUE, end |-> end, v |-> v]

\* The rest of a string from i (behind the opening quote)
Marks == {34, 92} \cup (0..31)
RECURSIVE Str(_, _, _)
Str(b, i, acc) ==
    IF i > Len(b) \/ Len(acc) < 0 THEN Bad          \* (The length makes TLC evaluate it now)
    ELSE IF b[i] = 34 THEN Good([t |-> "str", v |-> acc], i + 1)
    ELSE IF b[i] < 32 THEN Bad
    ELSE IF b[i] # 92 THEN LET m == First(b, i, Marks) IN IF m = 0 THEN Bad ELSE Str(b, m, acc \o SubSeq(b, i, m - 1))
    ELSE IF i = Len(b) THEN Bad
    ELSE CASE b[i + 1] \in {34, 92, 47} -> Str(b, i + 2, Append(acc, b[i + 1]))
           [] b[i + 1] = 98 -> Str(b, i + 2, Append(acc, 8))
           [] b[i + 1] = 102 -> Str(b, i + 2, Append(acc, 12))
           [] b[i + 1] = 110 -> Str(b, i + 2, Append(acc, 10))
           [] b[i + 1] = 114 -> Str(b, i + 2, Append(acc, 13))
           [] b[i + 1] = 116 -> Str(b, i + 2, Append(acc, 9))
           [] b[i + 1] = 117 ->
                LET c == Hex4(b, i + 2)
                    low == IF i + 7 <= Len(b) /\ b[i + 6] = 92 /\ b[i + 7] = 117 THEN Hex4(b, i + 8) ELSE -1
                IN IF c < 0 THEN Bad
                   ELSE IF c >= 55296 /\ c < 56320 /\ low >= 56320 /\ low < 57344
                   THEN Str(b, i + 12, acc \o Utf8(65536 + (c - 55296) * 1024 + (low - 56320)))
                   ELSE Str(b, i + 6, acc \o Utf8(c))
           [] OTHER -> Bad

\* The value that starts at i (after blanks), and where it ends
RECURSIVE Value(_, _), Elements(_, _, _), Members(_, _, _)
Value(b, i0) ==
    LET i == SkipBlank(b, i0)
    IN IF i > Len(b) THEN Bad
       ELSE CASE b[i] = 34 -> Str(b, i + 1, <<>>)
              [] b[i] = 91 -> LET j == SkipBlank(b, i + 1)
                              IN IF j <= Len(b) /\ b[j] = 93 THEN Good([t |-> "arr", v |-> <<>>], j + 1) ELSE Elements(b, i + 1, <<>>)
              [] b[i] = 123 -> LET j == SkipBlank(b, i + 1)
                               IN IF j <= Len(b) /\ b[j] = 125 THEN Good([t |-> "obj", v |-> <<>>], j + 1) ELSE Members(b, i + 1, <<>>)
              [] IsPrefixOf(sTrue, From(b, i)) -> Good([t |-> "bool", v |-> TRUE], i + 4)
              [] IsPrefixOf(sFalse, From(b, i)) -> Good([t |-> "bool", v |-> FALSE], i + 5)
              [] IsPrefixOf(sNull, From(b, i)) -> Good([t |-> "null"], i + 4)
              [] OTHER -> LET n == Number(b, i) IN IF n.ok THEN Good([t |-> "num", int |-> n.int, neg |-> n.neg, v |-> n.v], n.end) ELSE Bad
Elements(b, i, acc) ==
    LET x == Value(b, i)
        j == SkipBlank(b, x.end)
    IN IF ~x.ok \/ j > Len(b) THEN Bad
       ELSE IF b[j] = 93 THEN Good([t |-> "arr", v |-> Append(acc, x.v)], j + 1)
       ELSE IF b[j] = 44 THEN Elements(b, j + 1, Append(acc, x.v))
       ELSE Bad
Members(b, i, acc) ==
    LET q == SkipBlank(b, i)
        name == IF q <= Len(b) /\ b[q] = 34 THEN Str(b, q + 1, <<>>) ELSE Bad
        c == SkipBlank(b, name.end)
        x == IF name.ok /\ c <= Len(b) /\ b[c] = 58 THEN Value(b, c + 1) ELSE Bad
        j == SkipBlank(b, x.end)
    IN IF ~name.ok \/ ~x.ok \/ j > Len(b) THEN Bad
       ELSE IF b[j] = 125 THEN Good([t |-> "obj", v |-> Append(acc, <<name.v.v, x.v>>)], j + 1)
       ELSE IF b[j] = 44 THEN Members(b, j + 1, Append(acc, <<name.v.v, x.v>>))
       ELSE Bad

\* The beginning of a JSON text that ends within a string, an array or an object, and is right as far as it goes:
\* what a beginning of a value at i is: "done" (its end), "open" or "bad"
Part(k, end) == [k |-> k, end |-> end]
RECURSIVE StringPart(_, _), ValuePart(_, _), ElementsPart(_, _), MembersPart(_, _)
StringPart(b, i) ==
    IF i > Len(b) THEN Part("open", 0)
    ELSE IF b[i] = 34 THEN Part("done", i + 1)
    ELSE IF b[i] < 32 THEN Part("bad", 0)
    ELSE IF b[i] # 92 THEN StringPart(b, i + 1)
    ELSE IF i = Len(b) THEN Part("open", 0)
    ELSE IF b[i + 1] \in {34, 92, 47, 98, 102, 110, 114, 116} THEN StringPart(b, i + 2)
    ELSE IF b[i + 1] # 117 \/ (\E k \in (i + 2)..(i + 5) : k <= Len(b) /\ HexVal(b[k]) < 0) THEN Part("bad", 0)
    ELSE StringPart(b, i + 6)
ValuePart(b, i0) ==
    LET i == SkipBlank(b, i0)
    IN IF i > Len(b) THEN Part("open", 0)
       ELSE IF b[i] = 34 THEN StringPart(b, i + 1)
       ELSE IF b[i] = 91 THEN LET j == SkipBlank(b, i + 1) IN IF j <= Len(b) /\ b[j] = 93 THEN Part("done", j + 1) ELSE ElementsPart(b, i + 1)
       ELSE IF b[i] = 123 THEN LET j == SkipBlank(b, i + 1) IN IF j <= Len(b) /\ b[j] = 125 THEN Part("done", j + 1) ELSE MembersPart(b, i + 1)
       ELSE LET x == Value(b, i)
                rest == From(b, i)
            IN IF x.ok THEN Part("done", x.end)
               ELSE IF \/ \E w \in {sTrue, sFalse, sNull} : IsPrefixOf(rest, w)
                       \/ LET y == Value(rest \o <<48>>, 1) IN y.ok /\ y.end = Len(rest) + 2
                    THEN Part("open", 0) ELSE Part("bad", 0)
ElementsPart(b, i) ==
    LET x == ValuePart(b, i)
        j == SkipBlank(b, x.end)
    IN IF x.k # "done" THEN x
       ELSE IF j > Len(b) THEN Part("open", 0)
       ELSE IF b[j] = 93 THEN Part("done", j + 1)
       ELSE IF b[j] = 44 THEN ElementsPart(b, j + 1)
       ELSE Part("bad", 0)
MembersPart(b, i0) ==
    LET i == SkipBlank(b, i0)
        n == IF i > Len(b) THEN Part("open", 0) ELSE IF b[i] = 34 THEN StringPart(b, i + 1) ELSE Part("bad", 0)
        c == SkipBlank(b, n.end)
        x == ValuePart(b, c + 1)
        j == SkipBlank(b, x.end)
    IN IF n.k # "done" THEN n
       ELSE IF c > Len(b) THEN Part("open", 0)
       ELSE IF b[c] # 58 THEN Part("bad", 0)
       ELSE IF x.k # "done" THEN x
       ELSE IF j > Len(b) THEN Part("open", 0)
       ELSE IF b[j] = 125 THEN Part("done", j + 1)
       ELSE IF b[j] = 44 THEN MembersPart(b, j + 1)
       ELSE Part("bad", 0)
OpenEnd(b) == LET i == SkipBlank(b, 1) IN i <= Len(b) /\ b[i] \in {34, 91, 123} /\ ValuePart(b, i).k = "open"

Parse(b) == LET x == Value(b, 1) IN IF x.ok /\ SkipBlank(b, x.end) = Len(b) + 1 THEN x ELSE Bad
=============================================================================
