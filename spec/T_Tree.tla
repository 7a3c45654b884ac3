-------------------------------- MODULE T_Tree --------------------------------
EXTENDS Tree, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
Empty == [x \in {} |-> 0]
TNext == \/ At("begin") /\ vars' = Empty
         \/ At("leaf") /\ New(e.v, [t |-> "leaf", id |-> e.id, resp |-> 0])
         \/ At("dyn") /\ New(e.v, [t |-> "dyn", kids |-> <<>>, resp |-> 0])
         \/ At("stat") /\ New(e.v, [t |-> "stat", tag |-> e.tag, resp |-> 0])
         \/ At("add") /\ Add(e.v, e.name, e.w)
         \/ At("borrow") /\ Borrow(e.v, e.name, e.w)
         \/ At("move") /\ Move(e.v, e.w)
         \/ At("copy") /\ Copy(e.v, e.w)
         \/ At("assign") /\ Assign(e.v, e.w)
         \/ At("client") /\ Client(e.v, e.r)
         \/ At("walk") /\ Walk(e.v, e.got, e.sep)
         \/ At("find") /\ Find(e.v, e.path, e.sep, e.found, e.res)
         \/ At("serve") /\ Serve(e.v, e.names, e.a, e.res)
         \/ At("local") /\ Local(e.v, e.m, e.a, e.res)
         \/ At("sent") /\ Sent(e.v, e.m, e.r, e.path, e.sep)
         \/ At("done") /\ UNCHANGED vars
TSpec == vars = Empty /\ l = 1 /\ [][TNext]_<<vars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
