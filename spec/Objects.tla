-------------------------------- MODULE Objects --------------------------------
(* Objects of described classes and what reading a message does to them.                                               *)
(* A schema tells the type of a value; a value is built of leaves and of sequences, for objects of <<name, value>>.    *)
(* Update is the meaning of reading: the members the message contains change, the others do not.                       *)
EXTENDS StructIO
CONSTANT Merging      \* (TRUE only in models that have to fail: maps keep the entries the message does not contain)

SInt(w) == [k |-> "int", w |-> w]
SReal(w) == [k |-> "real", w |-> w]
SStr == [k |-> "str"]
SBool == [k |-> "bool"]
SOpt(s) == [k |-> "opt", of |-> s]
SVec(s) == [k |-> "vec", of |-> s]
SArr(n, s) == [k |-> "arr", n |-> n, of |-> s]
SMap(s) == [k |-> "map", of |-> s]
SObj(ms) == [k |-> "obj", ms |-> ms]     \* members: <<name, schema, default>>; default [t |-> "none"] means that of the type

NumOf(b) == LET n == WholeNumber(b) IN [t |-> "num", int |-> n.int, neg |-> n.neg, v |-> n.v]
Zero == NumOf(<<48>>)
RECURSIVE Default(_)
Default(s) == CASE s.k \in {"int", "real"} -> Zero
                [] s.k = "str" -> [t |-> "str", v |-> <<>>]
                [] s.k = "bool" -> [t |-> "bool", v |-> FALSE]
                [] s.k = "opt" -> [t |-> "null"]
                [] s.k = "vec" -> [t |-> "arr", v |-> <<>>]
                [] s.k = "arr" -> [t |-> "arr", v |-> [i \in 1..s.n |-> Default(s.of)]]
                [] s.k = "map" -> [t |-> "obj", v |-> <<>>]
                [] s.k = "obj" -> [t |-> "obj", v |-> [i \in 1..Len(s.ms) |-> <<s.ms[i][1], IF s.ms[i][3].t = "none" THEN Default(s.ms[i][2]) ELSE s.ms[i][3]>>]]

\* Where a name is among pairs, or 0
Find(ps, name) == IF \E i \in 1..Len(ps) : ps[i][1] = name THEN CHOOSE i \in 1..Len(ps) : ps[i][1] = name ELSE 0

RECURSIVE Update(_, _, _), UpdateMembers(_, _, _, _), UpdateEntries(_, _, _, _, _)
Update(s, old, msg) ==
    CASE s.k \in {"int", "real", "str", "bool"} -> msg
      [] s.k = "opt" -> IF msg.t = "null" THEN msg ELSE Update(s.of, IF old.t = "null" THEN Default(s.of) ELSE old, msg)
      [] s.k = "vec" -> [t |-> "arr", v |-> [i \in 1..Len(msg.v) |-> Update(s.of, IF i <= Len(old.v) THEN old.v[i] ELSE Default(s.of), msg.v[i])]]
      [] s.k = "arr" -> [t |-> "arr", v |-> [i \in 1..s.n |-> IF i <= Len(msg.v) THEN Update(s.of, old.v[i], msg.v[i]) ELSE old.v[i]]]
      [] s.k = "map" -> [t |-> "obj", v |-> UpdateEntries(s, old.v, IF Merging THEN old.v ELSE <<>>, msg.v, 1)]
      [] s.k = "obj" -> [t |-> "obj", v |-> UpdateMembers(s, old.v, msg.v, 1)]
UpdateMembers(s, vs, msg, i) ==
    IF i > Len(msg) THEN vs
    ELSE LET j == Find(s.ms, msg[i][1])
         IN UpdateMembers(s, IF j = 0 THEN vs ELSE [vs EXCEPT ![j] = <<msg[i][1], Update(s.ms[j][2], vs[j][2], msg[i][2])>>], msg, i + 1)
UpdateEntries(s, old, acc, msg, i) ==
    IF i > Len(msg) THEN acc
    ELSE LET name == msg[i][1]
             j == Find(acc, name)
             o == Find(old, name)
             before == IF j > 0 THEN acc[j][2] ELSE IF o > 0 THEN old[o][2] ELSE Default(s.of)
             after == <<name, Update(s.of, before, msg[i][2])>>
         IN UpdateEntries(s, old, IF j > 0 THEN [acc EXCEPT ![j] = after] ELSE Append(acc, after), msg, i + 1)

\* The contents recorded are those expected; the entries of maps have no order
RECURSIVE Match(_, _, _)
Match(s, x, got) ==
    CASE s.k \in {"int", "real"} -> got.t = s.k /\ (IF x.t = "num" THEN Same(got, x) ELSE x = got)
      [] s.k \in {"str", "bool"} -> x = got
      [] s.k = "opt" -> IF x.t = "null" THEN got.t = "null" ELSE got.t # "null" /\ Match(s.of, x, got)
      [] s.k \in {"vec", "arr"} -> Len(x.v) = Len(got.v) /\ \A i \in 1..Len(x.v) : Match(s.of, x.v[i], got.v[i])
      [] s.k = "map" -> Len(x.v) = Len(got.v) /\ \A i \in 1..Len(x.v) : LET j == Find(got.v, x.v[i][1]) IN j > 0 /\ Match(s.of, x.v[i][2], got.v[j][2])
      [] s.k = "obj" -> Len(x.v) = Len(got.v) /\ \A i \in 1..Len(x.v) : x.v[i][1] = got.v[i][1] /\ Match(s.ms[i][2], x.v[i][2], got.v[i][2])

\* ---- the classes of the harness
None0 == [t |-> "none"]
Inner == SObj(<< << <<120>>, SInt("i32"), None0>>, << <<116>>, SStr, [t |-> "str", v |-> <<113>>]>>, << <<108>>, SVec(SInt("i16")), None0>> >>)
Big == SObj(<<
    << <<97>>, SInt("i8"), NumOf(<<49>>)>>,
    << <<97, 98>>, SInt("u8"), None0>>,
    << <<99>>, SInt("i16"), None0>>,
    << <<100>>, SInt("u16"), None0>>,
    << <<101>>, SInt("i32"), NumOf(<<45, 55>>)>>,
    << <<102>>, SInt("u32"), None0>>,
    << <<103>>, SInt("i64"), None0>>,
    << <<104>>, SInt("u64"), None0>>,
    << <<105>>, SReal("f64"), NumOf(<<49, 46, 53>>)>>,
    << <<106>>, SReal("f32"), None0>>,
    << <<107>>, SBool, None0>>,
    << <<107, 107>>, SBool, [t |-> "bool", v |-> TRUE]>>,
    << <<115>>, SStr, [t |-> "str", v |-> <<120>>]>>,
    << <<105, 110>>, Inner, None0>>,
    << <<118>>, SVec(SInt("i32")), None0>>,
    << <<118, 115>>, SVec(SStr), None0>>,
    << <<118, 111>>, SVec(Inner), None0>>,
    << <<118, 118>>, SVec(SVec(SInt("i32"))), None0>>,
    << <<97, 114>>, SArr(3, SInt("i32")), None0>>,
    << <<97, 111>>, SArr(2, Inner), None0>>,
    << <<109>>, SMap(SInt("i32")), None0>>,
    << <<109, 111>>, SMap(Inner), None0>>,
    << <<109, 115>>, SMap(SStr), None0>>,
    << <<109, 118>>, SMap(SVec(SInt("i32"))), None0>>,
    << <<111>>, SOpt(SInt("i32")), None0>>,
    << <<111, 111>>, SOpt(Inner), None0>>,
    << <<111, 115>>, SOpt(SStr), [t |-> "str", v |-> <<>>]>>,
    << <<117>>, SOpt(Inner), None0>>,
    << <<118, 112>>, SVec(SOpt(SInt("i32"))), None0>>,
    << <<119>>, SInt("i16"), None0>>,
    << <<108, 97>>, SBool, None0>> >>)
Flat == SObj(<<
    << <<110>>, SInt("i32"), NumOf(<<51>>)>>,
    << <<110, 110>>, SInt("i64"), None0>>,
    << <<114>>, SReal("f64"), None0>>,
    << <<115>>, SStr, [t |-> "str", v |-> <<120>>]>>,
    << <<116>>, SStr, None0>>,
    << <<107>>, SBool, [t |-> "bool", v |-> TRUE]>>,
    << <<111>>, SOpt(SInt("i32")), None0>>,
    << <<111, 115>>, SOpt(SStr), None0>> >>)
=============================================================================
