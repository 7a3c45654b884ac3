------------------------------- MODULE T_Clients -------------------------------
EXTENDS Clients, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TNext == \/ (At("begin") \/ At("fresh")) /\ ids' = <<>> /\ msgs' = <<>> /\ arrived' = 0 /\ closed' = FALSE /\ collected' = {} /\ base' = 0 /\ doing' = Idle
         \/ At("request") /\ Request(e.t, e.id)
         \/ At("refused") /\ Refused
         \/ At("respond") /\ Respond(e.t, e.kind, e.b, e.n)
         \/ At("confuse") /\ Confuse(e.n)
         \/ At("arrive") /\ Arrive(e.n)
         \/ At("closed") /\ Close
         \/ At("start") /\ Start(e.op, e.t)
         \/ At("polled") /\ Polled(e.yes)
         \/ At("got") /\ Got(e.ok, e.b)
         \/ At("offer") /\ Offered(e.n, e.r, e.id, e.s)
         \/ At("stored") /\ OfferedStored(e.r)
TSpec == CInit /\ l = 1 /\ [][TNext]_<<clivars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
