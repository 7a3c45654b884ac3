----------------------------- MODULE T_Connections -----------------------------
EXTENDS Connections, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TNext == \/ (At("begin") \/ At("fresh")) /\ conns' = <<>>
         \/ At("join") /\ Join(e.c)
         \/ At("asked") /\ Asked(e.c, e.kind, e.n)
         \/ At("sent") /\ Sent(e.c, e.k)
         \/ At("reply") /\ Reply(e.c, e.owner, e.q, e.n, e.ok)
         \/ At("awaited") /\ Awaited(e.c)
         \/ At("shut") /\ Shut(e.c)
         \/ At("end") /\ End(e.c, e.rest)
         \/ At("leave") /\ Leave(e.c)
         \/ At("stats") /\ e.n >= 0 /\ UNCHANGED conns
         \/ At("done") /\ Served /\ UNCHANGED conns
TSpec == TInit /\ l = 1 /\ [][TNext]_<<conns, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
