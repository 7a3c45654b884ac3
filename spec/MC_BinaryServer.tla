---------------------------- MODULE MC_BinaryServer ----------------------------
(* A server that processes its buffer message by message, under every division of every short stream of messages.       *)
(* Each of its steps must be one BinaryServer allows (else TLC reports a deadlock), and once everything is received, what *)
(* was sent must be what the whole stream calls for.  Variant selects the design or one of the mistakes in it.            *)
EXTENDS BinaryServer
CONSTANTS Variant, MaxMessages
VARIABLES stream, total, out, runs
mvars == <<bvars, stream, total, out, runs>>
Api == [kids |-> <<[args |-> <<<<"n", 1, FALSE>>>>, res |-> <<"n", 1, FALSE>>], [args |-> <<>>, res |-> <<"v">>]>>]
Messages == {<<7, 4, 0, 5>>, <<8, 4, 0, 4>>, <<9, 3, 1>>, <<4, 5, 0, 6, 3>>, <<3, 3, 0>>, <<2, 1>>, <<5, 2>>, <<6, 4, 0, 0>>, <<1, 4, 1, 9>>}
Byte(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
MInit == /\ \E n \in 1..MaxMessages : \E s \in [1..n -> Messages] : stream = Flat(s) /\ total = Flat(s)
         /\ api = Api /\ sz = 1 /\ big = FALSE /\ pend = <<>> /\ phase = "wait" /\ exp = <<>> /\ sent = <<>> /\ closing = FALSE
         /\ out = <<>> /\ runs = <<>>
Arrive == /\ \E n \in 1..Len(stream) : Receive(SubSeq(stream, 1, n)) /\ stream' = Drop(stream, n)
          /\ UNCHANGED <<total, out, runs>>
\* The method fails if its argument is 0, its result is the argument
Fails(m) == m.method.args # <<>> /\ m.args[1] = Byte(0)
Result(m) == IF m.method.args = <<>> THEN <<>> ELSE m.args[1]
\* What the server makes of its buffer
Seen == LET m == Meaning(pend) IN
        IF Variant = "unsized" /\ Len(pend) >= 3 /\ m.k = "more" /\ pend[3] = 1 THEN [m EXCEPT !.k = "early"] ELSE m
Step == /\ phase = "work" /\ sent = exp
        /\ LET m == Seen IN
           IF closing THEN Return(FALSE) /\ UNCHANGED runs
           ELSE CASE m.k = "more" -> Return(TRUE) /\ UNCHANGED runs
                  [] m.k = "bad" -> (IF Variant = "ignore" THEN Return(TRUE) ELSE Return(FALSE)) /\ UNCHANGED runs
                  [] m.k = "early" -> Ran(<<1>>, <<>>, <<>>) /\ runs' = Append(runs, <<1>>)
                  [] m.k = "req" /\ Variant = "late" /\ Len(pend) = m.total /\ runs # <<>> -> Return(TRUE) /\ UNCHANGED runs
                  [] m.k = "req" -> /\ IF Fails(m) THEN Failed(m.path, m.args) ELSE Ran(m.path, m.args, Result(m))
                                    /\ runs' = Append(runs, m.path)
        /\ UNCHANGED <<stream, total, out>>
Write == /\ phase = "work" /\ sent # exp
         /\ LET b == Drop(exp, Len(sent)) IN
            /\ \E n \in 1..Len(b) : Send(SubSeq(b, 1, n)) /\ out' = out \o SubSeq(b, 1, n)
         /\ UNCHANGED <<stream, total, runs>>
Idle == (phase = "closed" \/ (phase = "wait" /\ stream = <<>>)) /\ UNCHANGED mvars
MNext == Arrive \/ Step \/ Write \/ Idle
MSpec == MInit /\ [][MNext]_mvars

\* What a stream calls for, as a whole
RECURSIVE Answers(_)
Answers(p) == LET m == Meaning(p) IN
    IF m.k # "req" THEN [b |-> <<>>, open |-> m.k = "more", runs |-> <<>>]
    ELSE IF Fails(m) THEN [b |-> <<>>, open |-> FALSE, runs |-> <<m.path>>]
    ELSE LET a == Answers(Drop(p, m.total)) IN [b |-> Response(m.id, m.method.res, Result(m)).b \o a.b, open |-> a.open, runs |-> <<m.path>> \o a.runs]
Got == SubSeq(total, 1, Len(total) - Len(stream))
\* Whenever a read was processed, everything received until then was answered, as if it had come at once
SplitIndependent == phase \in {"wait", "closed"} =>
    LET a == Answers(Got) IN out = a.b /\ runs = a.runs /\ (phase = "wait") = a.open
OnceEach == Len(runs) <= Len(total)
=============================================================================
