------------------------------ MODULE T_Versions -------------------------------
EXTENDS Versions, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TNext == \/ At("begin") /\ done' = -1 /\ begun' = -1 /\ asked' = [r \in Readers |-> -1] /\ seen' = [r \in Readers |-> -1]
         \/ At("server") /\ UNCHANGED vvars
         \/ At("vstart") /\ PutStart(e.v)
         \/ At("vend") /\ PutEnd(e.v)
         \/ At("rstart") /\ AskStart(e.r)
         \/ At("rend") /\ AskEnd(e.r, e.v)
         \/ At("stay") /\ begun = done /\ UNCHANGED vvars
TSpec == VInit /\ l = 1 /\ [][TNext]_<<vvars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
