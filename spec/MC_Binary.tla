------------------------------- MODULE MC_Binary -------------------------------
(* The binary layout can be read back without knowing more than the shape: for every small value, decoding its         *)
(* encoding gives the value and consumes exactly the encoding, also if other bytes follow, and every truncation of it  *)
(* is noticed.  Variant "unsized" (texts without size), "signed" (sizes read as signed bytes) are broken layouts.      *)
EXTENDS BinaryCode, TLC
CONSTANTS Variant, MaxLen, Depth
VARIABLES shape, value, todo
S == 1
\* Shapes: leaf kinds, arrays, objects with unknown layout, sequences, optional values
RECURSIVE AllShapes(_)
AllShapes(d) == IF d = 0 THEN {[k |-> "u16"], [k |-> "i8"], [k |-> "bool"], [k |-> "str"]}
                ELSE LET sub == AllShapes(d - 1)
                     IN sub \cup {[k |-> "arr", of |-> x] : x \in sub} \cup {[k |-> "map", of |-> x] : x \in sub}
                            \cup {[k |-> "opt", of |-> x] : x \in sub} \cup {[k |-> "pair", a |-> x, b |-> y] : x \in sub, y \in {[k |-> "i8"], [k |-> "str"]}}
Strings == UNION {[1..n -> {0, 1}] : n \in 0..2}
RECURSIVE Values(_)
Values(sh) == CASE sh.k = "u16" -> {<<0, 1>>, <<255, 2>>}
                [] sh.k = "i8" -> {<<1>>, <<200>>}
                [] sh.k = "bool" -> {<<0>>, <<1>>}
                [] sh.k = "str" -> Strings
                [] sh.k = "arr" -> UNION {[1..n -> Values(sh.of)] : n \in 0..MaxLen}
                [] sh.k = "map" -> UNION {[1..n -> Strings \X Values(sh.of)] : n \in 0..1}
                [] sh.k = "opt" -> {<<>>} \cup {<<x>> : x \in Values(sh.of)}
                [] OTHER -> Values(sh.a) \X Values(sh.b)
Text(v) == IF Variant = "unsized" THEN v \o <<0>> ELSE Str(v, S)
RECURSIVE Enc(_, _), EncAll(_, _), EncMap(_, _)
Enc(sh, v) == CASE sh.k \in {"u16", "i8", "bool"} -> v
                [] sh.k = "str" -> Text(v)
                [] sh.k = "arr" -> SizeBytes(Len(v), S) \o EncAll(sh.of, v)
                [] sh.k = "map" -> SizeBytes(Len(v), S) \o EncMap(sh.of, v)
                [] sh.k = "opt" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Enc(sh.of, v[1])
                [] OTHER -> Enc(sh.a, v[1]) \o Enc(sh.b, v[2])
EncAll(sh, v) == IF v = <<>> THEN <<>> ELSE Enc(sh, v[1]) \o EncAll(sh, Tail(v))
EncMap(sh, v) == IF v = <<>> THEN <<>> ELSE Text(v[1][1]) \o Enc(sh, v[1][2]) \o EncMap(sh, Tail(v))

Fail == [ok |-> FALSE, v |-> <<>>, p |-> 0]
Raw(b, p, n) == IF p + n > Len(b) THEN Fail ELSE [ok |-> TRUE, v |-> SubSeq(b, p + 1, p + n), p |-> p + n]
DecStr(b, p) == IF Variant = "unsized"
                THEN LET z == First(b, p + 1, {0}) IN IF z = 0 THEN Fail ELSE [ok |-> TRUE, v |-> SubSeq(b, p + 1, z - 1), p |-> z]
                ELSE IF p + S > Len(b) THEN Fail ELSE Raw(b, p + S, SizeValue(SubSeq(b, p + 1, p + S)))
RECURSIVE Dec(_, _, _), DecAll(_, _, _, _, _), DecMap(_, _, _, _, _)
Dec(sh, b, p) ==
    CASE sh.k = "u16" -> Raw(b, p, 2)
      [] sh.k \in {"i8", "bool"} -> Raw(b, p, 1)
      [] sh.k = "str" -> DecStr(b, p)
      [] sh.k = "arr" -> IF p + S > Len(b) THEN Fail ELSE DecAll(sh.of, b, p + S, SizeValue(SubSeq(b, p + 1, p + S)), <<>>)
      [] sh.k = "map" -> IF p + S > Len(b) THEN Fail ELSE DecMap(sh.of, b, p + S, SizeValue(SubSeq(b, p + 1, p + S)), <<>>)
      [] sh.k = "opt" -> LET f == Raw(b, p, 1) IN IF ~f.ok THEN f
                         ELSE IF f.v = <<0>> THEN [f EXCEPT !.v = <<>>]
                         ELSE LET x == Dec(sh.of, b, f.p) IN IF x.ok THEN [x EXCEPT !.v = <<x.v>>] ELSE x
      [] OTHER -> LET x == Dec(sh.a, b, p) IN IF ~x.ok THEN x
                  ELSE LET y == Dec(sh.b, b, x.p) IN IF y.ok THEN [y EXCEPT !.v = <<x.v, y.v>>] ELSE y
DecAll(sh, b, p, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc, p |-> p]
    ELSE LET x == Dec(sh, b, p) IN IF x.ok THEN DecAll(sh, b, x.p, n - 1, Append(acc, x.v)) ELSE x
DecMap(sh, b, p, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc, p |-> p]
    ELSE LET k == DecStr(b, p) IN IF ~k.ok THEN k
         ELSE LET x == Dec(sh, b, k.p) IN IF x.ok THEN DecMap(sh, b, x.p, n - 1, Append(acc, <<k.v, x.v>>)) ELSE x

\* One state per shape, then one per value of it
Init == shape \in AllShapes(Depth) /\ value = <<>> /\ todo = TRUE
Next == todo /\ value' \in Values(shape) /\ todo' = FALSE /\ shape' = shape
Spec == Init /\ [][Next]_<<shape, value, todo>>
Back == ~todo => LET b == Enc(shape, value) IN \A tail \in {<<>>, <<7, 0>>} : Dec(shape, b \o tail, 0) = [ok |-> TRUE, v |-> value, p |-> Len(b)]
Noticed == ~todo => LET b == Enc(shape, value) IN \A n \in 0..(Len(b) - 1) : ~Dec(shape, SubSeq(b, 1, n), 0).ok
=============================================================================
