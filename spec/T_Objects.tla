------------------------------- MODULE T_Objects -------------------------------
(* Recorded objects: every message read must have the effect Update says, every message written the contents.          *)
EXTENDS Objects, Json, IOUtils, TLC
J == INSTANCE JsonText
F == INSTANCE FormText
B == INSTANCE BinaryCode
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, schema, obj
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
Quiet == UNCHANGED <<building, built, todo, saved>>

\* binary layout of contents (size prefixes of 2 bytes)
RECURSIVE Enc(_, _), EncAll(_, _), EncPairs(_, _), EncMembers(_, _)
Enc(s, x) == CASE s.k = "int" -> B!IntBytes(x.le, s.w)
               [] s.k = "real" -> B!RealBytes(x.le, x.neg, x.m, x.ex, s.w)
               [] s.k = "str" -> B!Str(x.v, 2)
               [] s.k = "bool" -> <<IF x.v THEN 1 ELSE 0>>
               [] s.k = "opt" -> IF x.t = "null" THEN <<0>> ELSE <<1>> \o Enc(s.of, x)
               [] s.k \in {"vec", "arr"} -> B!SizeBytes(Len(x.v), 2) \o EncAll(s.of, x.v)
               [] s.k = "map" -> B!SizeBytes(Len(x.v), 2) \o EncPairs(s.of, x.v)
               [] s.k = "obj" -> EncMembers(s.ms, x.v)
EncAll(s, xs) == IF xs = <<>> THEN <<>> ELSE Enc(s, xs[1]) \o EncAll(s, Tail(xs))
EncPairs(s, xs) == IF xs = <<>> THEN <<>> ELSE B!Str(xs[1][1], 2) \o Enc(s, xs[1][2]) \o EncPairs(s, Tail(xs))
EncMembers(ms, xs) == IF xs = <<>> THEN <<>> ELSE Enc(ms[1][2], xs[1][2]) \o EncMembers(Tail(ms), Tail(xs))

\* forms carry texts
FromField(s, b) == CASE s.k \in {"int", "real"} -> NumOf(b)
                     [] s.k = "bool" -> [t |-> "bool", v |-> TRUE]
                     [] s.k = "opt" -> IF b = <<>> THEN [t |-> "null"] ELSE IF s.of.k = "int" THEN NumOf(b) ELSE [t |-> "str", v |-> b]
                     [] OTHER -> [t |-> "str", v |-> b]
FromForm(fs) == [t |-> "obj", v |-> [i \in 1..Len(fs) |-> LET j == Find(schema.ms, fs[i][1])
                                                          IN <<fs[i][1], IF j = 0 THEN [t |-> "null"] ELSE FromField(schema.ms[j][2], fs[i][2])>>]]
FieldMatches(x, b) == CASE x.t = "null" -> b = <<>>
                        [] x.t = "str" -> b = x.v
                        [] x.t = "bool" -> x.v
                        [] OTHER -> LET n == WholeNumber(b) IN n.ok /\ Same(x, NumOf(b))

TNext ==
    \/ At("begin") /\ schema' = Inner /\ obj' = None
    \/ At("new") /\ schema' = (CASE e.k = "big" -> Big [] e.k = "inner" -> Inner [] OTHER -> Flat)
       /\ Match(schema', Default(schema'), e.v) /\ obj' = e.v
    \/ At("json") /\ e.good /\ J!Parse(e.b).ok /\ Match(schema, Update(schema, obj, J!Parse(e.b).v), e.v) /\ obj' = e.v /\ schema' = schema
    \/ At("form") /\ e.good /\ Match(schema, Update(schema, obj, FromForm(F!Fields(e.b))), e.v) /\ obj' = e.v /\ schema' = schema
    \/ At("bin") /\ e.good /\ Enc(schema, e.v) = e.b /\ obj' = e.v /\ schema' = schema
    \/ At("wjson") /\ J!Parse(e.b).ok /\ Same(obj, J!Parse(e.b).v) /\ UNCHANGED <<schema, obj>>
    \/ At("wbin") /\ e.b = Enc(schema, obj) /\ UNCHANGED <<schema, obj>>
    \/ At("wform") /\ LET fs == F!Fields(e.b) IN Len(fs) = Len(obj.v) /\ \A i \in 1..Len(fs) : fs[i][1] = obj.v[i][1] /\ FieldMatches(obj.v[i][2], fs[i][2])
       /\ UNCHANGED <<schema, obj>>
TInit == IoInit /\ schema = Inner /\ obj = None /\ l = 1
TSpec == TInit /\ [][TNext /\ Quiet]_<<l, schema, obj>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
