------------------------------- MODULE T_Futures -------------------------------
EXTENDS Futures, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TNext == \/ (At("begin") \/ At("fresh")) /\ holds' = [s \in Slots |-> 0] /\ local' = [s \in Slots |-> <<>>] /\ calls' = <<>> /\ doing' = Idle
         \/ At("sent") /\ (Sent(e.t) \/ NowSent(e.t))
         \/ At("answered") /\ Answered(e.t, e.ok, e.b)
         \/ At("waited") /\ Waited(e.t)
         \/ At("fetched") /\ Fetched(e.t)
         \/ At("polled") /\ Polled(e.t)
         \/ At("start") /\ Begin(e.op, e.s)
         \/ At("called") /\ CallEnd(e.s, e.sent, e.b)
         \/ At("got") /\ GetEnd(e.s, e.ok, e.b)
         \/ At("ready") /\ ReadyEnd(e.s, e.yes)
         \/ At("dropped") /\ DropEnd(e.s)
         \/ At("moved") /\ MoveEnd(e.s, e.from)
         \/ At("now") /\ NowStart
         \/ At("result") /\ NowEnd(e.ok, e.b)
TSpec == FInit /\ l = 1 /\ [][TNext]_<<futvars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
