---------------------------- MODULE T_BinaryServer ----------------------------
(* Recorded connections of BinaryProtocolServer sessions behind the real receive buffer against BinaryServer. *)
EXTENDS BinaryServer, BinaryApi, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TNext == \/ At("begin") /\ api' = [kids |-> <<>>] /\ sz' = 2 /\ big' = FALSE /\ pend' = <<>> /\ phase' = "wait" /\ exp' = <<>> /\ sent' = <<>> /\ closing' = FALSE
         \/ At("api") /\ api' = ApiNamed(e.api) /\ sz' = e.sz /\ big' = e.big /\ UNCHANGED <<pend, phase, exp, sent, closing>>
         \/ At("recv") /\ Receive(e.b)
         \/ At("ran") /\ Ran(e.path, e.args, e.res)
         \/ At("failed") /\ Failed(e.path, e.args)
         \/ At("send") /\ Send(e.b)
         \/ At("ret") /\ Return(e.more)
         \/ At("done") /\ phase \in {"wait", "closed"} /\ UNCHANGED bvars
TSpec == BInit /\ l = 1 /\ [][TNext]_<<bvars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
