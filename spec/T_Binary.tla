------------------------------- MODULE T_Binary -------------------------------
(* Recorded uses of the binary writer and reader against the documented layout.                                        *)
(* Writer: out is what must have been written so far.  Reader: pos bytes were read, todo is the stack of containers.   *)
EXTENDS BinaryCode, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT MaxDepth
VARIABLES l, s, out, kinds, sizesFit, text, written, pos, todo, saved
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
wVars == <<out, kinds, sizesFit>>
rVars == <<pos, todo, saved>>
allVars == <<s, out, kinds, sizesFit, text, written, pos, todo, saved>>
WKeep == UNCHANGED <<s, text, written, pos, todo, saved>>
RKeep == UNCHANGED <<s, text, written, out, kinds, sizesFit>>

Put(b) == out' = out \o b /\ UNCHANGED <<kinds, sizesFit>>
PutSize(n, more) == out' = out \o SizeBytes(n, s) \o more /\ sizesFit' = (sizesFit /\ SizeFits(n, s))

\* ---- reading
Has(n) == pos + n <= Len(text)
Bytes1(n) == SubSeq(text, pos + 1, pos + n)
Read(n) == Has(n) /\ pos' = pos + n /\ UNCHANGED <<todo, saved>>
HasStr(p) == p + s <= Len(text) /\ p + s + SizeValue(SubSeq(text, p + 1, p + s)) <= Len(text)
StrLen(p) == s + SizeValue(SubSeq(text, p + 1, p + s))
StrAt(p) == SubSeq(text, p + s + 1, p + StrLen(p))
Depth == Cardinality({i \in 1..Len(todo) : todo[i].k = "arr"})
Push(k, n) == todo' = Append(todo, [k |-> k, left |-> n])
Top == todo[Len(todo)]
Pop == SubSeq(todo, 1, Len(todo) - 1)

Impossible == s = 8 /\ Bytes1(8)[8] >= 128   \* more than any message can have may be refused at once
\* The operation that failed had too few bytes (a whole message never fails)
Short(op) == CASE op = "int i8" \/ op = "int u8" \/ op = "bool" \/ op = "opt" -> ~Has(1)
               [] op = "int i16" \/ op = "int u16" \/ op = "real f16" -> ~Has(2)
               [] op = "int i32" \/ op = "int u32" \/ op = "int " \/ op = "real f32" -> ~Has(4)
               [] op = "int i64" \/ op = "int u64" \/ op = "real f64" -> ~Has(8)
               [] op = "str" \/ op = "member" -> ~HasStr(pos)
               [] op = "arr" -> ~Has(s) \/ Impossible \/ Depth = MaxDepth
               [] op = "obj" -> ~Has(s) \/ Impossible \/ (SizeValue(Bytes1(s)) > 0 /\ ~HasStr(pos + s))   \* (or its first name)
               [] OTHER -> FALSE

TNext ==
    \/ At("begin") /\ s' = 2 /\ out' = <<>> /\ kinds' = <<>> /\ sizesFit' = TRUE /\ text' = <<>> /\ written' = FALSE /\ pos' = 0 /\ todo' = <<>> /\ saved' = <<>>
    \/ At("fmt") /\ s' = e.s /\ UNCHANGED <<out, kinds, sizesFit, text, written, pos, todo, saved>>
    \/ At("wn") /\ UNCHANGED allVars
    \/ At("wb") /\ Put(<<IF e.v THEN 1 ELSE 0>>) /\ WKeep
    \/ At("wi") /\ Fits(e.le, e.w) /\ Put(IntBytes(e.le, e.w)) /\ WKeep
    \/ At("wf") /\ Put(RealBytes(e.le, e.neg, e.m, e.x, e.w)) /\ WKeep
    \/ At("ws") /\ PutSize(Len(e.v), e.v) /\ UNCHANGED kinds /\ WKeep
    \/ At("wa") /\ PutSize(e.n, <<>>) /\ UNCHANGED kinds /\ WKeep
    \/ At("wea") /\ UNCHANGED allVars
    \/ At("wo") /\ kinds' = Append(kinds, e.known) /\ (IF e.known THEN UNCHANGED <<out, sizesFit>> ELSE PutSize(e.n, <<>>)) /\ WKeep
    \/ At("wom") /\ (IF kinds[Len(kinds)] THEN UNCHANGED <<out, sizesFit>> ELSE PutSize(Len(e.v), e.v)) /\ UNCHANGED kinds /\ WKeep
    \/ At("weo") /\ kinds' = SubSeq(kinds, 1, Len(kinds) - 1) /\ UNCHANGED <<out, sizesFit>> /\ WKeep
    \/ At("wopt") /\ Put(<<IF e.v THEN 1 ELSE 0>>) /\ WKeep
    \* what was written is what the layout says; what does not fit into it is refused
    \/ At("text") /\ sizesFit /\ e.b = out /\ text' = e.b /\ written' = TRUE /\ UNCHANGED <<s, out, kinds, sizesFit, pos, todo, saved>>
    \/ At("werr") /\ ~sizesFit /\ UNCHANGED allVars
    \/ At("given") /\ text' = e.b /\ written' = FALSE /\ UNCHANGED <<s, out, kinds, sizesFit, pos, todo, saved>>
    \/ At("cut") /\ IsPrefixOf(e.b, text) /\ text' = e.b /\ written' = (written /\ e.b = text) /\ UNCHANGED <<s, out, kinds, sizesFit, pos, todo, saved>>
    \/ At("read") /\ pos' = 0 /\ todo' = <<>> /\ saved' = <<>> /\ RKeep
    \/ At("int") /\ Read(WidthOf(e.w)) /\ e.le = Extended(Bytes1(WidthOf(e.w)), e.w) /\ RKeep
    \/ At("real") /\ Read(WidthOf(e.w)) /\ RealBytes(e.le, e.neg, e.m, e.x, e.w) = Bytes1(WidthOf(e.w)) /\ RKeep
    \/ At("str") /\ HasStr(pos) /\ e.v = StrAt(pos) /\ Read(StrLen(pos)) /\ RKeep
    \/ At("bool") /\ Read(1) /\ e.v = (Bytes1(1) # <<0>>) /\ RKeep
    \/ At("null") /\ UNCHANGED allVars
    \/ At("opt") /\ Read(1) /\ e.v = (Bytes1(1) # <<0>>) /\ RKeep
    \/ At("arr") /\ Has(s) /\ pos' = pos + s /\ Push("arr", SizeValue(Bytes1(s))) /\ UNCHANGED saved /\ RKeep
    \/ At("next") /\ todo # <<>> /\ Top.k = "arr" /\ e.v = (Top.left > 0)
       /\ todo' = (IF e.v THEN Append(Pop, [Top EXCEPT !.left = @ - 1]) ELSE todo) /\ UNCHANGED <<pos, saved>> /\ RKeep
    \/ At("end") /\ todo # <<>> /\ Top.k = "arr" /\ Top.left = 0 /\ todo' = Pop /\ UNCHANGED <<pos, saved>> /\ RKeep
    \/ At("obj") /\ (IF e.known THEN pos' = pos /\ Push("kobj", e.n) ELSE Has(s) /\ pos' = pos + s /\ Push("obj", SizeValue(Bytes1(s))))
       /\ UNCHANGED saved /\ RKeep
    \/ At("member") /\ todo # <<>> /\ Top.k = "obj" /\ Top.left > 0 /\ HasStr(pos) /\ e.v = StrAt(pos) /\ pos' = pos + StrLen(pos)
       /\ todo' = Append(Pop, [Top EXCEPT !.left = @ - 1]) /\ UNCHANGED saved /\ RKeep
    \/ At("kmember") /\ todo # <<>> /\ Top.k = "kobj" /\ Top.left > 0 /\ todo' = Append(Pop, [Top EXCEPT !.left = @ - 1]) /\ UNCHANGED <<pos, saved>> /\ RKeep
    \/ At("oend") /\ todo # <<>> /\ Top.k = (IF e.known THEN "kobj" ELSE "obj") /\ Top.left = 0 /\ todo' = Pop /\ UNCHANGED <<pos, saved>> /\ RKeep
    \/ At("store") /\ saved' = Append(saved, pos) /\ UNCHANGED <<pos, todo>> /\ RKeep
    \/ At("restore") /\ saved # <<>> /\ pos' = saved[Len(saved)] /\ saved' = SubSeq(saved, 1, Len(saved) - 1) /\ UNCHANGED todo /\ RKeep
    \/ At("done") /\ e.good /\ todo = <<>> /\ (written => pos = Len(text)) /\ UNCHANGED allVars
    \/ At("err") /\ (Short(e.op) = TRUE) /\ UNCHANGED allVars
TInit == s = 2 /\ out = <<>> /\ kinds = <<>> /\ sizesFit = TRUE /\ text = <<>> /\ written = FALSE /\ pos = 0 /\ todo = <<>> /\ saved = <<>> /\ l = 1
TSpec == TInit /\ [][TNext]_<<allVars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
