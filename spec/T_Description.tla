----------------------------- MODULE T_Description -----------------------------
(* Trees of service objects are put together and described; the functions found in them are those described.            *)
EXTENDS Description, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES types, names, pool, vars, l
dvars == <<types, names, pool, vars>>
e == Trace[l]
At(name) == l <= Len(Trace) /\ e.e = name /\ l' = l + 1
Empty == [x \in {} |-> 0]
With(f, v, n) == [x \in DOMAIN f \cup {v} |-> IF x = v THEN n ELSE f[x]]
Without(f, v) == [x \in DOMAIN f \ {v} |-> f[x]]
Root == vars[e.v]
TNext == \/ At("begin") /\ types' = <<>> /\ names' = <<>> /\ pool' = <<>> /\ vars' = Empty
         \* what the program consists of; the names of types differ
         \/ At("program") /\ types' = e.types /\ names' = e.names /\ pool' = e.pool /\ UNCHANGED vars
                          /\ \A i, j \in 1..Len(e.names) : i # j => e.names[i] # e.names[j]
         \/ At("dyn") /\ vars' = With(vars, e.v, [t |-> "o", kids |-> <<>>]) /\ UNCHANGED <<types, names, pool>>
         \/ At("one") /\ vars' = With(vars, e.v, pool[e.k]) /\ UNCHANGED <<types, names, pool>>
         \/ At("put") /\ vars' = [vars EXCEPT ![e.v].kids = Append(@, [name |-> e.name, node |-> pool[e.k]])] /\ UNCHANGED <<types, names, pool>>
         \/ At("add") /\ vars' = Without([vars EXCEPT ![e.v].kids = Append(@, [name |-> e.name, node |-> vars[e.w]])], e.w) /\ UNCHANGED <<types, names, pool>>
         \/ At("described") /\ UNCHANGED dvars
                            /\ LET p == Parse(e.text) IN p.ok /\ Right(p.v, Root, types, names, e.url, e.service)
         \/ At("callable") /\ UNCHANGED dvars
                           /\ LET ms == Methods(Root, <<>>)
                              IN Len(e.paths) = Len(ms) /\ {ms[i].path : i \in 1..Len(ms)} = {e.paths[i] : i \in 1..Len(e.paths)}
         \/ At("done") /\ UNCHANGED dvars
TSpec == types = <<>> /\ names = <<>> /\ pool = <<>> /\ vars = Empty /\ l = 1 /\ [][TNext]_<<dvars, l>>
Post == PrintT(<<"DIAM", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
