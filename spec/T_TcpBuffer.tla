----------------------------- MODULE T_TcpBuffer -----------------------------
(* Traces of the real receive buffer against TcpBuffer *)
EXTENDS TcpBuffer, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1

TBegin == At("begin") /\ received' = 0 /\ consumed' = 0 /\ phase' = "wait" /\ more' = TRUE
TRecv == At("recv") /\ e.space > 0 /\ e.n <= e.space /\ Receive(e.n, e.err)
TOffer == /\ At("offer")
          /\ e.runs = <<<<consumed, e.len>>>>      \* the very bytes at these positions of the stream
          /\ Offer(consumed, e.len, e.r, e.n)
TParsed == At("parsed") /\ Notified
TRet == At("ret") /\ Return(e.more)
TDone == At("done") /\ phase \in {"wait", "closed"} /\ UNCHANGED vars

TInit == Init /\ l = 1
TNext == TBegin \/ TRecv \/ TOffer \/ TParsed \/ TRet \/ TDone
TSpec == TInit /\ [][TNext]_<<vars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
