------------------------------- MODULE T_JsForms -------------------------------
EXTENDS JsForms, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TNext == \/ At("begin") /\ api' = <<>> /\ stage' = "" /\ calls' = <<>> /\ used' = {} /\ forms' = <<>> /\ origin' = <<>> /\ shown' = <<>>
         \/ At("load") /\ FLoad([node |-> e.node, base |-> e.base, service |-> e.service, types |-> e.types, methods |-> e.methods])
         \/ At("fetched") /\ Fetched(e.url, e.get) /\ UNCHANGED <<forms, origin, shown>>
         \/ At("loaded") /\ Loaded(e.service, e.types) /\ UNCHANGED <<forms, origin, shown>>
         \/ At("call") /\ FCall(e.c, e.m, e.a)
         \/ At("sent") /\ Sent(e.q, e.url, e.post, e.json, e.b) /\ UNCHANGED <<forms, origin, shown>>
         \/ At("respond") /\ FRespond(e.q, e.kind, e.b)
         \/ At("settled") /\ FSettled(e.c, e.ok, e.b)
         \/ At("quiet") /\ Quiet /\ UNCHANGED <<forms, origin, shown>>
         \/ At("form") /\ Form(e.m, e.forms)
         \/ At("enter") /\ Enter(e.f, e.i, e.v)
         \/ At("press") /\ Press(e.f)
         \/ At("screen") /\ Screen(e.texts)
TSpec == FormsInit /\ l = 1 /\ [][TNext]_<<jfvars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
