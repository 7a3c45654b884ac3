--------------------------------- MODULE Bytes ---------------------------------
(* Byte strings as sequences of 0..255, and the text operations the protocols are defined with. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CR == 13
LF == 10
SP == 32
TAB == 9

\* The first position >= from holding one of the bytes, or 0 (searched in windows, so that long texts build no large sets)
Window == 64
RECURSIVE First(_, _, _)
First(b, from, set) ==
    IF from > Len(b) THEN 0
    ELSE LET to == IF from + Window - 1 < Len(b) THEN from + Window - 1 ELSE Len(b)
             ps == {i \in from..to : b[i] \in set}
         IN IF ps # {} THEN CHOOSE i \in ps : \A j \in ps : i <= j
            ELSE First(b, to + 1, set)

IsPrefixOf(p, b) == Len(p) <= Len(b) /\ SubSeq(b, 1, Len(p)) = p
From(b, i) == SubSeq(b, i, Len(b))
Drop(b, n) == SubSeq(b, n + 1, Len(b))

Digit(c) == c >= 48 /\ c <= 57
AllDigits(b) == b # <<>> /\ \A i \in 1..Len(b) : Digit(b[i])
RECURSIVE DecimalFrom(_, _, _)
DecimalFrom(b, i, acc) == IF i > Len(b) THEN acc ELSE DecimalFrom(b, i + 1, acc * 10 + (b[i] - 48))
Decimal(b) == DecimalFrom(b, 1, 0)

LowerByte(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(b) == [i \in 1..Len(b) |-> LowerByte(b[i])]

RECURSIVE TrimRight(_)
TrimRight(b) == IF b # <<>> /\ b[Len(b)] \in {SP, TAB} THEN TrimRight(SubSeq(b, 1, Len(b) - 1)) ELSE b
RECURSIVE TrimLeft(_)
TrimLeft(b) == IF b # <<>> /\ b[1] \in {SP, TAB} THEN TrimLeft(Tail(b)) ELSE b

Contains(b, p) == \E i \in 0..(Len(b) - Len(p)) : SubSeq(b, i + 1, i + Len(p)) = p
=============================================================================
