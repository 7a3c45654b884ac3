-------------------------------- MODULE MC_Form --------------------------------
(* The escaping of form values, character by character, next to what was to be escaped: what is written always means   *)
(* the characters given.  Variant "plainref" does not treat & followed by # specially, "plus" leaves + as it is.       *)
EXTENDS FormText, TLC, Json
CONSTANTS Variant, MaxChars, Emit
VARIABLES chars, out
\* Characters as code points: letters that can be part of escapes, separators, Latin-1 and beyond
Alphabet == {97, 49, 51, 98, 38, 35, 59, 37, 43, 32, 61, 233, 8364}
Lit(c) == IF c < 10 THEN 48 + c ELSE 87 + c
Percent(c) == <<37, Lit(c \div 16), Lit(c % 16)>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
RefTo(n) == <<37, 50, 54, 37, 50, 51>> \o Digits(n) \o <<37, 51, 98>>
One(c) == IF c = 32 THEN <<43>>
          ELSE IF c = 43 /\ Variant = "plus" THEN <<43>>
          ELSE IF c \in Plain THEN <<c>>
          ELSE IF c > 255 THEN RefTo(c) ELSE Percent(c)
RECURSIVE Encode(_), Utf8Of(_)
Encode(s) == IF s = <<>> THEN <<>>
             ELSE IF Variant # "plainref" /\ s[1] = 38 /\ Len(s) > 1 /\ s[2] = 35 THEN RefTo(38) \o Encode(Tail(s))
             ELSE One(s[1]) \o Encode(Tail(s))
Utf8Of(s) == IF s = <<>> THEN <<>> ELSE Utf(s[1]) \o Utf8Of(Tail(s))
Init == chars = <<>> /\ out = <<>>
Next == \E c \in Alphabet : Len(chars) < MaxChars /\ chars' = Append(chars, c) /\ out' = Encode(Append(chars, c))
Spec == Init /\ [][Next]_<<chars, out>>
Means == Decode(out) = Utf8Of(chars)
Clean == CleanText(out) /\ WellEscaped(out) /\ \A i \in 1..Len(out) : out[i] \notin {38, 61}
AsField == Fields(out \o <<61>> \o out \o <<38>> \o out) = <<<<Utf8Of(chars), Utf8Of(chars)>>, <<Utf8Of(chars), <<>>>>>> \/ out = <<>>
Report == (Emit /\ chars # <<>> /\ \E i \in 1..Len(chars) : chars[i] \in {38, 37, 233, 8364}) => PrintT(<<"H", ToJson(Utf8Of(chars))>>)
=============================================================================
