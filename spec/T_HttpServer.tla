----------------------------- MODULE T_HttpServer -----------------------------
EXTENDS HttpServer, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TBegin == At("begin") /\ pend' = <<>> /\ phase' = "wait" /\ exp' = <<>> /\ sent' = <<>> /\ closing' = FALSE
TNext == \/ TBegin
         \/ At("recv") /\ (Receive(e.b) \/ OddReceive(e.b))
         \/ At("call") /\ (Call(e.m, e.path, e.type, e.body) \/ OddAny)
         \/ At("app") /\ (Outcome(e.what, e.type, e.body, e.n) \/ OddAny)
         \/ At("send") /\ (Send(e.b) \/ OddAny)
         \/ At("ret") /\ (Return(e.more) \/ OddReturn(e.more))
         \/ At("done") /\ phase \in {"wait", "closed", "odd"} /\ UNCHANGED vars
TSpec == Init /\ l = 1 /\ [][TNext]_<<vars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
