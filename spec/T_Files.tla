-------------------------------- MODULE T_Files --------------------------------
EXTENDS Files, Json, IOUtils
H == INSTANCE HttpMsg
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
TBegin == At("begin") /\ kind' = "none" /\ disk' = <<>> /\ cached' = <<>> /\ pages' = <<>> /\ runs' = <<>>
\* What a client sees of a reply through HTTP
OverHttp(b) == LET x == H!Response(b)
               IN IF x.k # "resp" \/ x.total # Len(b) THEN [k |-> "broken", type |-> <<>>, announced |-> -1, b |-> b]
                  ELSE IF x.code = 200 THEN [k |-> "file", type |-> x.ctype, announced |-> Len(x.body), b |-> x.body]
                  ELSE IF x.code = 404 THEN [k |-> "refused", type |-> <<>>, announced |-> -1, b |-> <<>>]
                  ELSE [k |-> "failed", type |-> <<>>, announced |-> -1, b |-> b]
TNext == \/ TBegin
         \/ At("write") /\ Write(e.path, e.b)
         \/ At("delete") /\ Delete(e.path)
         \/ At("server") /\ Start(e.kind)
         \/ At("reload") /\ Reload
         \/ At("reset") /\ Reset
         \/ At("add") /\ Add(e.name, e.chunks)
         \/ At("ran") /\ Generate(e.b)
         \/ At("get") /\ Get(e.path, e)
         \/ At("cut") /\ GetCut(e.path, e.was, e)
         \/ At("http") /\ Get(e.path, OverHttp(e.b))
TSpec == Init /\ l = 1 /\ [][TNext]_<<fvars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
