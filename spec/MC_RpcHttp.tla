------------------------------ MODULE MC_RpcHttp ------------------------------
(* The dispatching of requests among pages and methods: pages first, then the method if the request has arguments, does *)
(* what RpcHttp demands for every request, set of pages and outcome of the method.                                      *)
(* Bug: "page" leaves the method out if there is a page, "twice" runs it for the page and for the reply, "plain" runs   *)
(* methods for requests without arguments, "merge" keeps the arguments of the previous request.                          *)
EXTENDS RpcHttp
CONSTANT Bug
Ms == << [m |-> <<97>>, names |-> <<<<97>>>>, ps |-> SObj(<<<< <<120>>, SInt("i32"), None0>>>>), res |-> SInt("i32")],
         [m |-> <<98>>, names |-> <<<<98>>>>, ps |-> SObj(<<<< <<121>>, SStr, None0>>>>), res |-> [k |-> "void"]] >>
Paths == {<<47, 97>>, <<47, 98>>, <<47, 122>>, <<47>>, <<47, 97, 47>>}
Queries == {<<>>, <<120, 61, 51>>, <<120, 61, 113>>, <<121, 61, 118, 38, 120, 61, 51>>, <<119, 61>>}
Requests == [method : {"GET", "POST", "other"}, path : Paths, ask : BOOLEAN, query : Queries]
VARIABLES req, before, calls, resp, step
mvars == <<rvars, req, before, calls, resp, step, building, built, todo, saved>>
still == <<rvars, building, built, todo, saved>>
MInit == /\ IoInit /\ kind = "form" /\ methods = Ms /\ pend = <<>> /\ ran = <<>> /\ sent = <<>>
         /\ \E ps \in SUBSET {<<47, 97>>, <<47, 122>>} : pages = (IF <<47, 97>> \in ps THEN <<<<<<47, 97>>, <<80>>>>>> ELSE <<>>) \o (IF <<47, 122>> \in ps THEN <<<<<<47, 122>>, <<81>>>>>> ELSE <<>>)
         /\ req \in Requests /\ before = Default(Ms[1].ps) /\ calls = <<>> /\ resp = [code |-> 0, body |-> <<>>] /\ step = "start"
IntArg(v) == [t |-> "int", v |-> v, le |-> <<>>]
ArgsOf(i, fs, old) == LET j == Find(fs, Ms[i].ps.ms[1][1])
                      IN [t |-> "obj", v |-> <<<<Ms[i].ps.ms[1][1], IF i = 1 THEN IntArg(IF j = 0 THEN old ELSE fs[j][2]) ELSE [t |-> "str", v |-> IF j = 0 THEN <<>> ELSE fs[j][2]]>>>>]
Method(p) == Named(Ms, IF Tail(p) = <<>> THEN <<>> ELSE IF p[Len(p)] = 47 THEN <<SubSeq(p, 2, Len(p) - 1)>> ELSE <<Tail(p)>>)
Acts(fs) == Method(req.path) # 1 \/ Find(fs, <<120>>) = 0 \/ WholeNumber(fs[Find(fs, <<120>>)][2]).ok
Go == /\ step = "start" /\ step' = "done" /\ UNCHANGED <<still, req, before>>
      /\ LET fs == FT!Fields(req.query)
             i == Method(req.path)
             wants == i > 0 /\ (req.method = "POST" \/ (req.method = "GET" /\ (req.ask \/ Bug = "plain")))
             page == req.method = "GET" /\ Page(req.path).ok
             fails == wants /\ ~Acts(fs)
         IN \E throws \in BOOLEAN :
            LET c == [m |-> Ms[i].m, a |-> ArgsOf(i, fs, IF Bug = "merge" THEN <<51>> ELSE <<48>>), r |-> IF throws THEN [t |-> "throw"] ELSE IF i = 1 THEN IntArg(<<55>>) ELSE [t |-> "void"]]
            IN /\ calls' = IF ~wants \/ fails \/ (page /\ Bug = "page") THEN <<>> ELSE IF Bug = "twice" /\ page THEN <<c, c>> ELSE <<c>>
               /\ resp' = IF page THEN [code |-> 200, body |-> Page(req.path).b]
                          ELSE IF req.method = "other" THEN [code |-> 501, body |-> <<>>]
                          ELSE IF wants /\ (fails \/ throws) THEN [code |-> 500, body |-> <<>>]
                          ELSE IF wants /\ req.method = "POST" THEN [code |-> 204, body |-> <<>>]
                          ELSE IF wants THEN [code |-> 200, body |-> IF i = 1 THEN <<55>> ELSE <<>>]
                          ELSE [code |-> IF req.method = "POST" THEN 400 ELSE 404, body |-> <<>>]
MSpec == MInit /\ [][Go]_mvars
Text(r) == IF r.method = "POST" THEN r.path ELSE r.path \o (IF r.ask THEN <<63>> \o r.query ELSE <<>>)
Right == step = "done" => Request([method |-> req.method, path |-> Text(req), ctype |-> sFormType, body |-> IF req.method = "POST" THEN req.query ELSE <<>>], calls, resp)
===============================================================================
