------------------------------- MODULE FormText -------------------------------
(* URL-encoded forms, as sent by pages without a declared character set: fields name=value separated by &, + is a      *)
(* space, %XX the Latin-1 character with that code, and %26%23<decimal>%3B any other character.  Values are texts; the *)
(* program knows which of them are numbers.                                                                            *)
EXTENDS Dec
HexDigit(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
HexAt(b, i) == IF i + 2 > Len(b) \/ HexDigit(b[i + 1]) < 0 \/ HexDigit(b[i + 2]) < 0 THEN -1 ELSE 16 * HexDigit(b[i + 1]) + HexDigit(b[i + 2])
Utf(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* Is this valid UTF-8 from i on?
RECURSIVE Utf8Text(_, _)
Utf8Text(b, i) ==
    IF i > Len(b) THEN TRUE
    ELSE LET n == IF b[i] < 128 THEN 1 ELSE IF b[i] >= 194 /\ b[i] < 224 THEN 2 ELSE IF b[i] >= 224 /\ b[i] < 240 THEN 3 ELSE IF b[i] >= 240 /\ b[i] < 245 THEN 4 ELSE 9
         IN /\ i + n - 1 <= Len(b)
            /\ \A k \in (i + 1)..(i + n - 1) : b[k] >= 128 /\ b[k] < 192
            /\ (b[i] = 224 => b[i + 1] >= 160) /\ (b[i] = 240 => b[i + 1] >= 144) /\ (b[i] = 244 => b[i + 1] < 144)
            /\ Utf8Text(b, i + n)
Escape(b, i) == IF b[i] = 37 THEN HexAt(b, i) ELSE -1
\* A character reference at i: where its semicolon is, or 0
Reference(b, i) == IF i + 6 <= Len(b) /\ Escape(b, i) = 38 /\ Escape(b, i + 3) = 35 /\ Digit(b[i + 6])
                   THEN LET j == RunEnd(b, i + 6) IN IF j <= Len(b) /\ Escape(b, j) = 59 /\ j - i - 6 <= 7 THEN j ELSE 0
                   ELSE 0
RECURSIVE Decoded(_, _, _)
Decoded(b, i, acc) ==
    IF i > Len(b) THEN acc
    ELSE IF b[i] = 43 THEN Decoded(b, i + 1, Append(acc, 32))
    ELSE IF b[i] # 37 THEN Decoded(b, i + 1, Append(acc, b[i]))
    ELSE LET j == Reference(b, i)
         IN IF j > 0 THEN Decoded(b, j + 3, acc \o Utf(Decimal(SubSeq(b, i + 6, j - 1))))
            ELSE Decoded(b, i + 3, acc \o Utf(HexAt(b, i)))
Decode(b) == Decoded(b, 1, <<>>)
WellEscaped(b) == \A i \in 1..Len(b) : b[i] = 37 => HexAt(b, i) >= 0

\* The fields: <<name, value>>, both decoded
FieldEnd(b, i) == LET j == First(b, i, {38}) IN IF j = 0 THEN Len(b) + 1 ELSE j
Field(f) == LET q == First(f, 1, {61})
            IN IF q = 0 THEN <<Decode(f), <<>>>> ELSE <<Decode(SubSeq(f, 1, q - 1)), Decode(From(f, q + 1))>>
RECURSIVE FieldsFrom(_, _, _)
FieldsFrom(b, i, acc) == IF i > Len(b) THEN acc
                         ELSE LET j == FieldEnd(b, i) IN FieldsFrom(b, j + 1, Append(acc, Field(SubSeq(b, i, j - 1))))
Fields(b) == FieldsFrom(b, 1, <<>>)

\* Characters a written form may contain: letters, digits, marks without any meaning, and those of the encoding itself
Plain == (48..57) \cup (65..90) \cup (97..122) \cup {46, 42, 45, 95, 94, 92, 126, 39, 96, 124, 60, 62, 91, 93, 123, 125, 40, 41}
CleanText(b) == \A i \in 1..Len(b) : b[i] \in Plain \cup {37, 43, 38, 61}
=============================================================================
