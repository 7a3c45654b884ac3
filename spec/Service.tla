-------------------------------- MODULE Service --------------------------------
(* The methods of harness/api.hpp: m is the name calls are recorded under, names the path, ps the parameters as the    *)
(* members of an object, res the schema of the result.                                                                 *)
(* The tree: svc (echo, add, note, fail, list, obj, real, maps, count), n (low (none, opt, cmp, halt)), top.            *)
EXTENDS Objects
TreeMethods == <<
    [m |-> <<115, 118, 99, 46, 101, 99, 104, 111>>, names |-> <<<<115, 118, 99>>, <<101, 99, 104, 111>>>>,
       ps |-> SObj(<<<< <<115>>, SStr, None0>>>>), res |-> SStr],
    [m |-> <<115, 118, 99, 46, 97, 100, 100>>, names |-> <<<<115, 118, 99>>, <<97, 100, 100>>>>,
       ps |-> SObj(<<<< <<97>>, SInt("i32"), None0>>, << <<98>>, SInt("i32"), None0>>>>), res |-> SInt("i32")],
    [m |-> <<115, 118, 99, 46, 110, 111, 116, 101>>, names |-> <<<<115, 118, 99>>, <<110, 111, 116, 101>>>>,
       ps |-> SObj(<<<< <<110>>, SInt("i64"), None0>>>>), res |-> [k |-> "void"]],
    [m |-> <<115, 118, 99, 46, 102, 97, 105, 108>>, names |-> <<<<115, 118, 99>>, <<102, 97, 105, 108>>>>,
       ps |-> SObj(<<<< <<104, 111, 119>>, SInt("i32"), None0>>, << <<115>>, SStr, None0>>>>), res |-> SStr],
    [m |-> <<115, 118, 99, 46, 108, 105, 115, 116>>, names |-> <<<<115, 118, 99>>, <<108, 105, 115, 116>>>>,
       ps |-> SObj(<<<< <<108>>, SVec(SInt("i32")), None0>>, << <<111>>, SOpt(SStr), None0>>>>), res |-> SVec(SInt("i32"))],
    [m |-> <<115, 118, 99, 46, 111, 98, 106>>, names |-> <<<<115, 118, 99>>, <<111, 98, 106>>>>,
       ps |-> SObj(<<<< <<112>>, Inner, None0>>, << <<113>>, SBool, None0>>>>), res |-> Inner],
    [m |-> <<115, 118, 99, 46, 114, 101, 97, 108>>, names |-> <<<<115, 118, 99>>, <<114, 101, 97, 108>>>>,
       ps |-> SObj(<<<< <<120>>, SBool, None0>>, << <<121>>, SReal("f64"), None0>>>>), res |-> SReal("f64")],
    [m |-> <<115, 118, 99, 46, 109, 97, 112, 115>>, names |-> <<<<115, 118, 99>>, <<109, 97, 112, 115>>>>,
       ps |-> SObj(<<<< <<109>>, SMap(SInt("i64")), None0>>>>), res |-> SMap(SInt("i64"))],
    [m |-> <<115, 118, 99, 46, 99, 111, 117, 110, 116>>, names |-> <<<<115, 118, 99>>, <<99, 111, 117, 110, 116>>>>,
       ps |-> SObj(<<<< <<98, 121>>, SInt("i16"), None0>>>>), res |-> SInt("i64")],
    [m |-> <<110, 46, 108, 111, 119, 46, 110, 111, 110, 101>>, names |-> <<<<110>>, <<108, 111, 119>>, <<110, 111, 110, 101>>>>,
       ps |-> SObj(<<>>), res |-> SStr],
    [m |-> <<110, 46, 108, 111, 119, 46, 111, 112, 116>>, names |-> <<<<110>>, <<108, 111, 119>>, <<111, 112, 116>>>>,
       ps |-> SObj(<<<< <<118>>, SOpt(SInt("i32")), None0>>>>), res |-> SOpt(SInt("i32"))],
    [m |-> <<110, 46, 108, 111, 119, 46, 99, 109, 112>>, names |-> <<<<110>>, <<108, 111, 119>>, <<99, 109, 112>>>>,
       ps |-> SObj(<<<< <<117>>, SInt("u8"), None0>>, << <<115>>, SStr, None0>>>>), res |-> SBool],
    [m |-> <<110, 46, 108, 111, 119, 46, 104, 97, 108, 116>>, names |-> <<<<110>>, <<108, 111, 119>>, <<104, 97, 108, 116>>>>,
       ps |-> SObj(<<>>), res |-> [k |-> "void"]],
    [m |-> <<116, 111, 112>>, names |-> <<<<116, 111, 112>>>>,
       ps |-> SObj(<<<< <<118>>, SInt("i64"), None0>>, << <<116, 101, 120, 116>>, SStr, None0>>>>), res |-> SInt("i64")] >>
OneMethod == <<
    [m |-> <<>>, names |-> <<>>,
       ps |-> SObj(<<<< <<116, 101, 120, 116>>, SStr, None0>>, << <<116, 105, 109, 101, 115>>, SInt("i32"), None0>>, << <<121, 101, 108, 108>>, SBool, None0>>>>), res |-> SStr] >>
Methods(name) == IF name = "one" THEN OneMethod ELSE TreeMethods

\* The index of the method a path names, 0 if it names none (a separator at the end may be ignored)
RECURSIVE SplitPath(_, _, _)
SplitPath(p, c, acc) == IF p = <<>> THEN <<acc>> ELSE IF p[1] = c THEN <<acc>> \o SplitPath(Tail(p), c, <<>>) ELSE SplitPath(Tail(p), c, Append(acc, p[1]))
PathNames(p, c) == IF p = <<>> THEN <<>> ELSE SplitPath(p, c, <<>>)
Named(ms, names) == IF \E i \in 1..Len(ms) : ms[i].names = names THEN CHOOSE i \in 1..Len(ms) : ms[i].names = names ELSE 0
FoundMethods(ms, p, c) == LET names == PathNames(p, c)
                          IN {Named(ms, names)} \cup (IF names # <<>> /\ names[Len(names)] = <<>> THEN {Named(ms, SubSeq(names, 1, Len(names) - 1))} ELSE {})

\* Can a value be read as an argument of this type: "yes", "no", or "maybe" where the formats leave it open
Digits(v) == Len(v.d) + v.e
IntDigits == [i8 |-> 3, u8 |-> 3, i16 |-> 5, u16 |-> 5, i32 |-> 10, u32 |-> 10, i64 |-> 19, u64 |-> 19]
D(s) == Norm([i \in 1..Len(s) |-> s[i]], 0)
IntLimit == [i8 |-> D(<<1,2,7>>), u8 |-> D(<<2,5,5>>), i16 |-> D(<<3,2,7,6,7>>), u16 |-> D(<<6,5,5,3,5>>),
             i32 |-> D(<<2,1,4,7,4,8,3,6,4,7>>), u32 |-> D(<<4,2,9,4,9,6,7,2,9,5>>),
             i64 |-> D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>), u64 |-> D(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)]
Holds(w, v) == v.int /\ Leq(v.v, IntLimit[w]) /\ (v.neg => v.v.d = <<>> \/ w \in {"i8", "i16", "i32", "i64"})
Both(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "maybe" \in {a, b} THEN "maybe" ELSE "yes"
RECURSIVE Verdict(_, _), VerdictAll(_, _), VerdictPairs(_, _), VerdictMembers(_, _)
Verdict(s, v) ==
    CASE s.k = "int" -> IF v.t # "num" THEN "no" ELSE IF Holds(s.w, v) THEN "yes" ELSE "maybe"
      [] s.k = "real" -> IF v.t # "num" THEN "no" ELSE IF Digits(v.v) < 300 /\ Digits(v.v) > -300 THEN "yes" ELSE "maybe"
      [] s.k = "str" -> IF v.t = "str" THEN "yes" ELSE "no"
      [] s.k = "bool" -> IF v.t = "bool" THEN "yes" ELSE "no"
      [] s.k = "opt" -> IF v.t = "null" THEN "yes" ELSE Verdict(s.of, v)
      [] s.k = "vec" -> IF v.t = "arr" THEN VerdictAll(s.of, v.v) ELSE "no"
      [] s.k = "map" -> IF v.t = "obj" THEN VerdictPairs(s.of, v.v) ELSE "no"
      [] s.k = "obj" -> IF v.t = "obj" THEN VerdictMembers(s.ms, v.v) ELSE "no"
VerdictAll(s, vs) == IF vs = <<>> THEN "yes" ELSE Both(Verdict(s, vs[1]), VerdictAll(s, Tail(vs)))
VerdictPairs(s, vs) == IF vs = <<>> THEN "yes" ELSE Both(Verdict(s, vs[1][2]), VerdictPairs(s, Tail(vs)))
VerdictMembers(ms, vs) ==
    IF vs = <<>> THEN "yes"
    ELSE LET j == Find(ms, vs[1][1]) IN Both(IF j = 0 THEN "yes" ELSE Verdict(ms[j][2], vs[1][2]), VerdictMembers(ms, Tail(vs)))

\* The call that arguments (an object) lead to
Expected(method, args) == Update(method.ps, Default(method.ps), args)
CallIs(method, args, c) == c.m = method.m /\ Match(method.ps, Expected(method, args), c.a)
=============================================================================
