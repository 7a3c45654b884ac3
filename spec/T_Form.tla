-------------------------------- MODULE T_Form --------------------------------
(* Recorded uses of the writer and the reader of URL-encoded forms against StructIO.                                   *)
EXTENDS StructIO, FormText, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, text, valid
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
allVars == <<building, built, todo, saved, text, valid>>
RKeep == UNCHANGED <<building, built, text, valid>>
WKeep == UNCHANGED <<todo, saved, text, valid>>

IntVal == [t |-> "int", v |-> e.t]
RealVal == [t |-> "real", neg |-> e.neg, lo |-> e.lo, x |-> e.x, hi |-> e.hi]
True4 == <<116, 114, 117, 101>>

\* What a text is as a number; texts that only resemble numbers may be refused
AsNumber(b) == LET n == WholeNumber(b) IN [t |-> "num", ok |-> n.ok, int |-> n.int, neg |-> n.neg, v |-> n.v]
NumberBytes == (48..57) \cup {43, 45, 46, 69, 101}
Resembles(b) == ~AsNumber(b).ok /\ b # <<>> /\ \A i \in 1..Len(b) : b[i] \in NumberBytes
Typed(b, type) == IF AsNumber(b).ok THEN type = (IF AsNumber(b).int THEN "int" ELSE "real")
                  ELSE IF Resembles(b) THEN type \in {"int", "real", "str"}
                  ELSE type = "str"
SameField(w, b) == CASE w.t = "null" -> b = <<>>
                     [] w.t = "bool" -> w.v /\ b = True4
                     [] w.t = "str" -> b = w.v
                     [] OTHER -> AsNumber(b).ok /\ Same(w, AsNumber(b))
SameFields(w, fs) == w.t = "obj" /\ Len(w.v) = Len(fs) /\ \A i \in 1..Len(fs) : w.v[i][1] = fs[i][1] /\ SameField(w.v[i][2], fs[i][2])
Root(b) == LET fs == Fields(b) IN [t |-> "obj", v |-> [i \in 1..Len(fs) |-> <<fs[i][1], [t |-> "raw", v |-> fs[i][2]]>>]]

Loose == ~valid /\ UNCHANGED allVars
TNext ==
    \/ At("begin") /\ building' = <<>> /\ built' = None /\ todo' = <<>> /\ saved' = <<>> /\ text' = <<>> /\ valid' = FALSE
    \/ At("fmt") /\ UNCHANGED allVars
    \/ At("wn") /\ Put([t |-> "null"]) /\ WKeep
    \/ At("wb") /\ Put([t |-> "bool", v |-> e.v]) /\ WKeep
    \/ At("wi") /\ Put(IntVal) /\ WKeep
    \/ At("wf") /\ Put(RealVal) /\ WKeep
    \/ At("ws") /\ Put([t |-> "str", v |-> e.v]) /\ WKeep
    \/ At("wo") /\ Open("obj") /\ WKeep
    \/ At("wom") /\ MemberName(e.v) /\ WKeep
    \/ At("weo") /\ Close("obj") /\ WKeep
    \/ At("wopt") /\ (IF e.v THEN UNCHANGED <<building, built>> ELSE Put([t |-> "null"])) /\ WKeep
    \* the text written consists of the allowed characters and its fields are what was written
    \/ At("text") /\ building = <<>> /\ built # None
       /\ CleanText(e.b) /\ WellEscaped(e.b) /\ SameFields(built, Fields(e.b))
       /\ text' = e.b /\ UNCHANGED <<building, built, todo, saved, valid>>
    \/ At("given") /\ text' = e.b /\ UNCHANGED <<building, built, todo, saved, valid>>
    \/ At("cut") /\ text' = e.b /\ IsPrefixOf(e.b, text) /\ UNCHANGED <<building, built, todo, saved, valid>>
    \/ At("read") /\ valid' = WellEscaped(text)
       /\ (IF WellEscaped(text) THEN StartReading(Root(text)) ELSE todo' = <<>> /\ saved' = <<>>)
       /\ UNCHANGED <<building, built, text>>
    \/ At("type") /\ (Loose \/ (HasHead /\ Typed(Head1.v, e.v) = TRUE /\ UNCHANGED allVars))
    \/ At("int") /\ (Loose \/ (ReadLeaf(LAMBDA r : Resembles(r.v) \/ (AsNumber(r.v).ok /\ AsNumber(r.v).int /\ Same(IntVal, AsNumber(r.v)))) /\ saved' = saved /\ RKeep))
    \/ At("real") /\ (Loose \/ (ReadLeaf(LAMBDA r : Resembles(r.v) \/ (AsNumber(r.v).ok /\ Same(RealVal, AsNumber(r.v)))) /\ saved' = saved /\ RKeep))
    \/ At("str") /\ (Loose \/ (ReadLeaf(LAMBDA r : r.v = e.v) /\ saved' = saved /\ RKeep))
    \/ At("bool") /\ (Loose \/ (ReadLeaf(LAMBDA r : e.v) /\ saved' = saved /\ RKeep))
    \/ At("opt") /\ (Loose \/ (HasHead /\ e.v = (Head1.v # <<>>) /\ (IF e.v THEN todo' = todo ELSE Advance) /\ saved' = saved /\ RKeep))
    \/ At("skip") /\ (Loose \/ (HasHead /\ Advance /\ saved' = saved /\ RKeep))
    \/ At("obj") /\ (Loose \/ (Enter("obj") /\ saved' = saved /\ RKeep))
    \/ At("member") /\ (Loose \/ (NextMember(e.v) /\ saved' = saved /\ RKeep))
    \/ At("oend") /\ (Loose \/ (Leave("obj") /\ saved' = saved /\ RKeep))
    \/ At("store") /\ (Loose \/ (Store /\ RKeep))
    \/ At("restore") /\ (Loose \/ (Restore /\ RKeep))
    \/ At("done") /\ (valid => e.good /\ Finished) /\ UNCHANGED allVars
    \/ At("err") /\ (IF ~valid THEN TRUE ELSE IF HasHead THEN Resembles(Head1.v) \/ (AsNumber(Head1.v).ok /\ ~InRange(AsNumber(Head1.v))) ELSE FALSE) = TRUE
       /\ UNCHANGED allVars
TInit == IoInit /\ text = <<>> /\ valid = FALSE /\ l = 1
TSpec == TInit /\ [][TNext]_<<allVars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
