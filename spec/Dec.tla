---------------------------------- MODULE Dec ----------------------------------
(* Exact non-negative decimal numbers [d, e] = d * 10^e, d a digit sequence without zeros at either end (zero: no      *)
(* digits, e = 0), and the numbers written in texts.                                                                   *)
EXTENDS Bytes

RECURSIVE StripLead(_), StripTrail(_, _)
StripLead(d) == IF d # <<>> /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d
StripTrail(d, e) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripTrail(SubSeq(d, 1, Len(d) - 1), e + 1) ELSE [d |-> d, e |-> IF d = <<>> THEN 0 ELSE e]
Norm(d, e) == StripTrail(StripLead(d), e)

DigitAt(x, place) == IF place < x.e \/ place >= x.e + Len(x.d) THEN 0 ELSE x.d[Len(x.d) - (place - x.e)]
Top(x) == IF x.d = <<>> THEN -100000 ELSE x.e + Len(x.d)
Low(x, y) == IF x.d = <<>> THEN y.e ELSE IF y.d = <<>> THEN x.e ELSE IF x.e < y.e THEN x.e ELSE y.e
High(x, y) == IF Top(x) > Top(y) THEN Top(x) ELSE Top(y)

RECURSIVE LeqFrom(_, _, _)
LeqFrom(x, y, k) == IF k > Len(x.d) THEN TRUE
                    ELSE IF k > Len(y.d) THEN FALSE
                    ELSE IF x.d[k] # y.d[k] THEN x.d[k] < y.d[k] ELSE LeqFrom(x, y, k + 1)
Leq(x, y) == IF Top(x) # Top(y) THEN Top(x) < Top(y) ELSE LeqFrom(x, y, 1)

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(x, y, place, carry, acc) ==
    IF place > High(x, y) THEN acc
    ELSE LET s == DigitAt(x, place) + DigitAt(y, place) + carry
         IN AddFrom(x, y, place + 1, s \div 10, <<s % 10>> \o acc)
Add(x, y) == IF x.d = <<>> THEN y ELSE IF y.d = <<>> THEN x
             ELSE LET low == Low(x, y) IN Norm(AddFrom(x, y, low, 0, <<>>), low)

\* t is as close to x as to its neighbours lo and hi, so it denotes the floating point number x
Nearest(t, lo, x, hi) == t = x \/ (Leq(Add(x, lo), Add(t, t)) /\ Leq(Add(t, t), Add(x, hi)))

\* The longest run of digits from i
RECURSIVE RunEnd(_, _)
RunEnd(b, i) == IF i <= Len(b) /\ Digit(b[i]) THEN RunEnd(b, i + 1) ELSE i

\* A JSON number at position i: where it ends, whether it is written as an integer, and its value
Number(b, i) ==
    LET neg == i <= Len(b) /\ b[i] = 45
        s == IF neg THEN i + 1 ELSE i
        iend == RunEnd(b, s)
        point == iend <= Len(b) /\ b[iend] = 46
        fend == IF point THEN RunEnd(b, iend + 1) ELSE iend
        expo == fend <= Len(b) /\ b[fend] \in {69, 101}
        esign == expo /\ fend + 1 <= Len(b) /\ b[fend + 1] \in {43, 45}
        es == IF esign THEN fend + 2 ELSE fend + 1
        eend == IF expo THEN RunEnd(b, es) ELSE fend
        ev == IF expo /\ eend - es <= 5 THEN Decimal(SubSeq(b, es, eend - 1)) ELSE 0
        evs == IF esign /\ b[fend + 1] = 45 THEN -ev ELSE ev
        frac == IF point THEN SubSeq(b, iend + 1, fend - 1) ELSE <<>>
        digits == SubSeq(b, s, iend - 1) \o frac
    IN IF \/ iend = s
          \/ (b[s] = 48 /\ iend > s + 1)
          \/ (point /\ fend = iend + 1)
          \/ (expo /\ (eend = es \/ eend - es > 5))
       THEN [ok |-> FALSE, end |-> i, int |-> FALSE, neg |-> FALSE, v |-> [d |-> <<>>, e |-> 0]]
       ELSE [ok |-> TRUE, end |-> eend, int |-> ~point /\ ~expo, neg |-> neg,
             v |-> Norm([k \in 1..Len(digits) |-> digits[k] - 48], evs - Len(frac))]
WholeNumber(b) == LET n == Number(b, 1) IN IF n.ok /\ n.end = Len(b) + 1 THEN n ELSE [n EXCEPT !.ok = FALSE]
\* Integers of 64 bits
MaxInt == [d |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>, e |-> 0]
MinInt == [d |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>, e |-> 0]
InRange(n) == IF n.neg THEN Leq(n.v, MinInt) ELSE Leq(n.v, MaxInt)
=============================================================================
