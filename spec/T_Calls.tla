------------------------------- MODULE T_Calls -------------------------------
EXTENDS Calls, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TNext == \/ (At("begin") \/ At("fresh")) /\ proto' = "" /\ conns' = <<>> /\ serving' = 0 /\ calls' = <<>>
         \/ At("proto") /\ proto' = e.p /\ UNCHANGED <<conns, serving, calls>>
         \/ At("connect") /\ Connect(e.c)
         \/ At("ask") /\ Ask(e.c, e.t, e.m, e.s, e.a, e.may)
         \/ At("serve") /\ Serve(e.c)
         \/ At("call") /\ Execute(e.m, e.s, e.a, e.r)
         \/ At("closed") /\ Closed(e.c)
         \/ At("answer") /\ Answer(e.t, e.ok, e.r)
         \/ At("ready") /\ Ready(e.t, e.yes)
         \/ At("done") /\ Quiet
TSpec == CallsInit /\ l = 1 /\ [][TNext]_<<cvars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
