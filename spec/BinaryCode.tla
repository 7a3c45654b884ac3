------------------------------ MODULE BinaryCode ------------------------------
(* The documented binary layout: numbers in little endian in the size of their type, texts, arrays and objects with    *)
(* unknown layout prefixed by their size as a number of S bytes, objects with known layout as mere sequences of values, *)
(* optional values preceded by a byte.                                                                                  *)
EXTENDS Bytes
WidthOf(w) == CASE w \in {"i8", "u8"} -> 1 [] w \in {"i16", "u16", "f16"} -> 2 [] w \in {"i32", "u32", "f32", ""} -> 4 [] OTHER -> 8
Signed(w) == w \in {"i8", "i16", "i32", "i64", ""}
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* An integer given by the 8 bytes of its two's complement
IntBytes(le, w) == SubSeq(le, 1, WidthOf(w))
\* ... and the 8 bytes read back from its encoding
Extended(b, w) == LET fill == IF Signed(w) /\ b[Len(b)] >= 128 THEN 255 ELSE 0 IN [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE fill]
Fits(le, w) == Extended(IntBytes(le, w), w) = le

\* A real number (-1)^neg * m * 2^x with m in 2^23..2^24-1 or m = 0, exactly representable in the type
Bytes4(hi, lo) == <<lo % 256, lo \div 256, hi % 256, hi \div 256>>
F32(neg, m, x) ==
    LET biased == x + 150
        sign == IF neg THEN 32768 ELSE 0
        mant == IF m = 0 THEN 0 ELSE IF biased >= 1 THEN m - 8388608 ELSE m \div Pow2(1 - biased)
        expo == IF m = 0 \/ biased < 1 THEN 0 ELSE biased
    IN Bytes4(sign + expo * 128 + mant \div 65536, mant % 65536)
F16(neg, m, x) ==
    LET biased == x + 38
        sign == IF neg THEN 32768 ELSE 0
        mant == IF m = 0 THEN 0 ELSE IF biased >= 1 THEN m \div 8192 - 1024 ELSE m \div Pow2(14 - biased)
        expo == IF m = 0 \/ biased < 1 THEN 0 ELSE biased
        all == sign + expo * 1024 + mant
    IN <<all % 256, all \div 256>>
RealBytes(le, neg, m, x, w) == CASE w = "f64" -> le [] w = "f32" -> F32(neg, m, x) [] OTHER -> F16(neg, m, x)

\* Sizes
RECURSIVE SizeBytes(_, _)
SizeBytes(n, s) == IF s = 0 THEN <<>> ELSE <<n % 256>> \o SizeBytes(n \div 256, s - 1)
RECURSIVE SizeSum(_)
SizeSum(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * SizeSum(Tail(b))
SizeValue(b) == IF Len(b) > 3 /\ \E i \in 4..Len(b) : b[i] # 0 THEN 100000000 ELSE SizeSum(b)   \* (more than any message has)
SizeFits(n, s) == s >= 3 \/ n < Pow2(8 * s)
Str(v, s) == SizeBytes(Len(v), s) \o v
=============================================================================
