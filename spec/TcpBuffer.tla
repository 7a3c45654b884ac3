------------------------------ MODULE TcpBuffer ------------------------------
(* The receive side of a server connection, as a protocol handler and its peer observe it: a stream of bytes arrives   *)
(* in arbitrary pieces, and the handler is offered exactly the bytes it has not consumed yet, in order, until it asks  *)
(* for more, with room left for the next piece.  Positions stand for bytes: byte k of the stream is k.                 *)
EXTENDS Naturals, Integers, Sequences

CONSTANTS MaxStream,     \* how many bytes the peer may send (state constraint of the exhaustive check)
          Chunks         \* sizes of pieces considered

VARIABLES received,      \* bytes that arrived
          consumed,      \* bytes the handler took
          phase,         \* "wait": between reads; "offer": the handler is to be called; "note": a parsed message is to be
                         \* counted; "back": the read is about to return; "closed"
          more           \* what the read will return

vars == <<received, consumed, phase, more>>

Init == received = 0 /\ consumed = 0 /\ phase = "wait" /\ more = TRUE

\* One completed read of n bytes; the peer's end of stream is a read of 0 bytes
Receive(n, error) ==
    /\ phase = "wait"
    /\ n >= 0
    /\ IF error \/ n = 0
       THEN phase' = "back" /\ more' = FALSE /\ UNCHANGED received
       ELSE phase' = "offer" /\ received' = received + n /\ UNCHANGED more
    /\ UNCHANGED consumed

\* The handler is called with the bytes [from, from + len) and reacts
Offer(from, len, reaction, n) ==
    /\ phase = "offer"
    /\ from = consumed
    /\ len = received - consumed
    /\ len > 0
    /\ CASE reaction = "ok"    -> /\ n \in 1..len
                                  /\ consumed' = consumed + n
                                  /\ phase' = "note"
                                  /\ UNCHANGED more
         [] reaction = "on"    -> phase' = "back" /\ UNCHANGED <<consumed, more>>
         [] reaction = "wrong" -> phase' = "back" /\ UNCHANGED <<consumed, more>>
         [] reaction = "stop"  -> phase' = "back" /\ more' = FALSE /\ UNCHANGED consumed
         [] OTHER -> FALSE
    /\ UNCHANGED received

\* Exactly one notification per message the handler took, before anything else happens
Notified ==
    /\ phase = "note"
    /\ phase' = IF consumed < received THEN "offer" ELSE "back"
    /\ UNCHANGED <<received, consumed, more>>

Return(value) ==
    /\ phase = "back"
    /\ value = more
    /\ phase' = IF more THEN "wait" ELSE "closed"
    /\ UNCHANGED <<received, consumed, more>>

Next ==
    \/ \E n \in Chunks \cup {0} : received + n <= MaxStream /\ Receive(n, FALSE)
    \/ Receive(0, TRUE)
    \/ \E r \in {"on", "wrong", "stop"} : Offer(consumed, received - consumed, r, 0)
    \/ \E n \in 1..(received - consumed) : Offer(consumed, received - consumed, "ok", n)
    \/ Notified
    \/ Return(more)

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Notified) /\ WF_vars(Return(more)) /\ WF_vars(\E n \in 1..(received - consumed) : Offer(consumed, received - consumed, "ok", n))

TypeOK == /\ received \in Nat /\ consumed \in Nat
          /\ phase \in {"wait", "offer", "note", "back", "closed"} /\ more \in BOOLEAN
\* Nothing is lost, repeated or consumed before it arrives
InOrder == consumed <= received
\* The handler is only called when there is something to give to it
NeverEmpty == phase = "offer" => consumed < received
\* Bytes are never taken back, and after the end nothing happens
Monotone == [][received' >= received /\ consumed' >= consumed]_vars
ClosedIsFinal == [][phase = "closed" => UNCHANGED vars]_vars
\* A read completes as long as the handler is able to take what it is offered
Progress == [](phase = "offer" => <>(phase \in {"wait", "closed"}))
=============================================================================
