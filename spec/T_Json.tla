-------------------------------- MODULE T_Json --------------------------------
(* Recorded uses of the JSON writer and reader against StructIO over JSON texts.                                       *)
EXTENDS StructIO, JsonText, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, text, valid, truncated
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
allVars == <<building, built, todo, saved, text, valid, truncated>>
RKeep == UNCHANGED <<building, built, text, valid, truncated>>
WKeep == UNCHANGED <<todo, saved, text, valid, truncated>>

IntVal == [t |-> "int", v |-> e.t]
RealVal == [t |-> "real", neg |-> e.neg, lo |-> e.lo, x |-> e.x, hi |-> e.hi]
TypeOf(v) == CASE v.t = "num" -> IF v.int THEN "int" ELSE "real" [] OTHER -> v.t

\* Reading of a text that is not valid: no matter what comes before the error is reported
Loose == ~valid /\ UNCHANGED allVars

TNext ==
    \/ At("begin") /\ building' = <<>> /\ built' = None /\ todo' = <<>> /\ saved' = <<>> /\ text' = <<>> /\ valid' = FALSE /\ truncated' = FALSE
    \/ At("fmt") /\ UNCHANGED allVars
    \/ At("wn") /\ Put([t |-> "null"]) /\ WKeep
    \/ At("wb") /\ Put([t |-> "bool", v |-> e.v]) /\ WKeep
    \/ At("wi") /\ Put(IntVal) /\ WKeep
    \/ At("wf") /\ Put(RealVal) /\ WKeep
    \/ At("ws") /\ Put([t |-> "str", v |-> e.v]) /\ WKeep
    \/ At("wa") /\ Open("arr") /\ WKeep
    \/ At("wea") /\ Close("arr") /\ WKeep
    \/ At("wo") /\ Open("obj") /\ WKeep
    \/ At("wom") /\ MemberName(e.v) /\ WKeep
    \/ At("weo") /\ Close("obj") /\ WKeep
    \/ At("wopt") /\ (IF e.v THEN UNCHANGED <<building, built>> ELSE Put([t |-> "null"])) /\ WKeep
    \* the text written must be valid JSON and denote what was written
    \/ At("text") /\ building = <<>> /\ built # None
       /\ LET p == Parse(e.b) IN p.ok /\ Same(built, p.v)
       /\ text' = e.b /\ UNCHANGED <<building, built, todo, saved, valid, truncated>>
    \/ At("given") /\ text' = e.b /\ UNCHANGED <<building, built, todo, saved, valid, truncated>>
    \/ At("cut") /\ text' = e.b /\ truncated' = (Parse(text).ok /\ OpenEnd(e.b)) /\ IsPrefixOf(e.b, text)
       /\ UNCHANGED <<building, built, todo, saved, valid>>
    \/ At("read") /\ LET p == Parse(text)
                     IN valid' = p.ok /\ (IF p.ok THEN StartReading(p.v) ELSE todo' = <<>> /\ saved' = <<>>)
       /\ UNCHANGED <<building, built, text, truncated>>
    \/ At("type") /\ (Loose \/ (HasHead /\ e.v = TypeOf(Head1) /\ UNCHANGED allVars))
    \/ At("int") /\ (Loose \/ (ReadLeaf(LAMBDA v : v.t = "num" /\ v.int /\ Same(IntVal, v)) /\ saved' = saved /\ RKeep))
    \/ At("real") /\ (Loose \/ (ReadLeaf(LAMBDA v : v.t = "num" /\ Same(RealVal, v)) /\ saved' = saved /\ RKeep))
    \/ At("str") /\ (Loose \/ (ReadLeaf(LAMBDA v : v = [t |-> "str", v |-> e.v]) /\ saved' = saved /\ RKeep))
    \/ At("bool") /\ (Loose \/ (ReadLeaf(LAMBDA v : v = [t |-> "bool", v |-> e.v]) /\ saved' = saved /\ RKeep))
    \/ At("null") /\ (Loose \/ (ReadLeaf(LAMBDA v : v.t = "null") /\ saved' = saved /\ RKeep))
    \/ At("opt") /\ (Loose \/ (HasHead /\ e.v = (Head1.t # "null") /\ (IF e.v THEN todo' = todo ELSE Advance) /\ saved' = saved /\ RKeep))
    \/ At("skip") /\ (Loose \/ (HasHead /\ Advance /\ saved' = saved /\ RKeep))
    \/ At("arr") /\ (Loose \/ (Enter("arr") /\ saved' = saved /\ RKeep))
    \/ At("next") /\ (Loose \/ (NextElement(e.v) /\ saved' = saved /\ RKeep))
    \/ At("end") /\ (Loose \/ (Leave("arr") /\ saved' = saved /\ RKeep))
    \/ At("obj") /\ (Loose \/ (Enter("obj") /\ saved' = saved /\ RKeep))
    \/ At("member") /\ (Loose \/ (NextMember(e.v) /\ saved' = saved /\ RKeep))
    \/ At("oend") /\ (Loose \/ (Leave("obj") /\ saved' = saved /\ RKeep))
    \/ At("store") /\ (Loose \/ (Store /\ RKeep))
    \/ At("restore") /\ (Loose \/ (Restore /\ RKeep))
    \* the end: everything was read and nothing was wrong, or something was wrong and, if the text was incomplete, reported
    \/ At("done") /\ (IF valid THEN e.good /\ Finished ELSE ~truncated) /\ UNCHANGED allVars
    \* an integer that does not fit into 64 bits may be refused when it is read as an integer
    \/ At("err") /\ (IF ~valid THEN TRUE ELSE IF e.op = "int" /\ HasHead THEN Head1.t = "num" /\ ~InRange(Head1) ELSE FALSE) = TRUE /\ UNCHANGED allVars
TInit == IoInit /\ text = <<>> /\ valid = FALSE /\ truncated = FALSE /\ l = 1
TSpec == TInit /\ [][TNext]_<<allVars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
