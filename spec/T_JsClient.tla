------------------------------ MODULE T_JsClient ------------------------------
EXTENDS JsClient, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TNext == \/ At("begin") /\ api' = <<>> /\ stage' = "" /\ calls' = <<>> /\ used' = {}
         \/ At("load") /\ Load([node |-> e.node, base |-> e.base, service |-> e.service, types |-> e.types, methods |-> e.methods])
         \/ At("fetched") /\ Fetched(e.url, e.get)
         \/ At("loaded") /\ Loaded(e.service, e.types)
         \/ At("call") /\ Call(e.c, e.m, e.a)
         \/ At("sent") /\ Sent(e.q, e.url, e.post, e.json, e.b)
         \/ At("respond") /\ Respond(e.q, e.kind, e.b)
         \/ At("settled") /\ Settled(e.c, e.ok, e.b)
         \/ At("quiet") /\ Quiet
TSpec == JsInit /\ l = 1 /\ [][TNext]_<<jsvars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
