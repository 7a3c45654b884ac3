------------------------------- MODULE T_OutBuf -------------------------------
EXTENDS OutBuf, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TBegin == At("begin") /\ kind' = "none" /\ cap' = 0 /\ content' = <<>> /\ size' = 0 /\ adding' = FALSE
TNext == \/ TBegin
         \/ At("new") /\ New(e.kind, e.cap)
         \/ At("add") /\ Add(e.b)
         \/ At("added") /\ Added
         \/ At("chunk") /\ Chunk(e.b)
         \/ At("flushed") /\ Flushed
         \/ At("view") /\ e.b = e.m /\ View(e.b)
         \/ At("size") /\ Size(e.n)
         \/ At("clear") /\ Clear
         \/ At("gone") /\ e.intact /\ Gone
TSpec == Init /\ l = 1 /\ [][TNext]_<<vars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
