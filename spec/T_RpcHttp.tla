------------------------------- MODULE T_RpcHttp -------------------------------
EXTENDS RpcHttp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
Quiet == UNCHANGED <<building, built, todo, saved>>
TNext == \/ At("begin") /\ kind' = "" /\ methods' = <<>> /\ pages' = <<>> /\ pend' = <<>> /\ ran' = <<>> /\ sent' = <<>>
         \/ At("server") /\ kind' = e.kind /\ methods' = Methods(e.api) /\ UNCHANGED <<pages, pend, ran, sent>>
         \/ At("page") /\ pages' = Append(pages, <<e.path, e.b>>) /\ UNCHANGED <<kind, methods, pend, ran, sent>>
         \/ At("recv") /\ Receive(e.b)
         \/ At("call") /\ CallOf(e.m, e.a, e.r)
         \/ At("send") /\ Send(e.b)
         \/ At("ret") /\ Return(e.more)
         \/ At("done") /\ UNCHANGED rvars
TInit == IoInit /\ kind = "" /\ methods = <<>> /\ pages = <<>> /\ pend = <<>> /\ ran = <<>> /\ sent = <<>> /\ l = 1
TSpec == TInit /\ [][TNext /\ Quiet]_<<l, rvars>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
