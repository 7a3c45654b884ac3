---------------------------- MODULE TcpBufferImpl ----------------------------
(* The storage strategy of the receive buffer with scaled-down sizes: a fixed array with the unconsumed bytes at some  *)
(* offset, compacted when there is more room in front of them, moved to a growing vector when the array is full and    *)
(* back when few enough are left.  Memory cells hold stream positions, so the invariant below says what the handler    *)
(* would read.  TLC checks that it refines TcpBuffer and that the space for the next read is never empty and never     *)
(* overlaps bytes that are still needed.                                                                               *)
EXTENDS Naturals, Integers, Sequences, TLC

CONSTANTS MaxStream, ReadMax, ArraySize

VARIABLES received, consumed, phase, more,   \* abstract state, maintained as history variables
          arr, vec,                          \* memory: sequences of stream positions, -1 is garbage
          start, end,                        \* kept part of the current memory
          spaceOff, spaceLen, spaceInVec,    \* where the next read goes
          prevStart
implVars == <<arr, vec, start, end, spaceOff, spaceLen, spaceInVec, prevStart>>
vars == <<received, consumed, phase, more, arr, vec, start, end, spaceOff, spaceLen, spaceInVec, prevStart>>

Min(a, b) == IF a < b THEN a ELSE b
Garbage(n) == [i \in 1..n |-> -1]

Abs == INSTANCE TcpBuffer WITH Chunks <- 1..MaxStream

Init == /\ Abs!Init
        /\ arr = Garbage(ArraySize) /\ vec = <<>> /\ start = 0 /\ end = 0
        /\ spaceOff = 0 /\ spaceLen = ReadMax /\ spaceInVec = FALSE /\ prevStart = 0

Write(mem, off, n) == [i \in 1..Len(mem) |-> IF i > off /\ i <= off + n THEN received + (i - off) - 1 ELSE mem[i]]

Receive(n) ==
    /\ phase = "wait" /\ n \in 1..spaceLen /\ received + n <= MaxStream
    /\ Abs!Receive(n, FALSE)
    /\ IF spaceInVec THEN /\ vec' = SubSeq(Write(vec, spaceOff, n), 1, end + n) /\ UNCHANGED arr
                     ELSE /\ arr' = Write(arr, spaceOff, n) /\ vec' = (IF vec = <<>> THEN vec ELSE SubSeq(vec, 1, end + n))
    /\ end' = end + n
    /\ prevStart' = start
    /\ UNCHANGED <<start, spaceOff, spaceLen, spaceInVec>>

Mem == IF vec = <<>> THEN arr ELSE vec
Offered == SubSeq(Mem, start + 1, end)

Take(n) == /\ n \in 1..(end - start)
           /\ Abs!Offer(consumed, end - start, "ok", n)
           /\ start' = start + n
           /\ UNCHANGED <<arr, vec, end, spaceOff, spaceLen, spaceInVec, prevStart>>
Stop(r) == Abs!Offer(consumed, end - start, r, 0) /\ UNCHANGED implVars
Notified == Abs!Notified /\ UNCHANGED implVars

\* What happens between the last offer and the return
Rearrange ==
    LET shrunk == vec # <<>> /\ prevStart # start
        left == Len(vec) - start
        toArray == shrunk /\ left <= ArraySize
        vec1 == IF ~shrunk THEN vec ELSE IF toArray THEN <<>> ELSE SubSeq(vec, start + 1, Len(vec))
        arr1 == IF toArray THEN [i \in 1..ArraySize |-> IF i <= left THEN vec[start + i] ELSE arr[i]] ELSE arr
        start1 == IF shrunk THEN 0 ELSE start
        end1 == IF shrunk THEN left ELSE end
    IN IF vec1 # <<>> THEN
          /\ end' = Len(vec1) /\ vec' = vec1 \o Garbage(ArraySize) /\ arr' = arr1 /\ start' = start1
          /\ spaceOff' = Len(vec1) /\ spaceLen' = ArraySize /\ spaceInVec' = TRUE
       ELSE IF start1 = 0 /\ end1 = ArraySize THEN
          /\ vec' = arr1 \o Garbage(ArraySize) /\ arr' = arr1 /\ start' = start1 /\ end' = end1
          /\ spaceOff' = end1 /\ spaceLen' = ArraySize /\ spaceInVec' = TRUE
       ELSE IF start1 = end1 THEN
          /\ start' = 0 /\ end' = 0 /\ arr' = arr1 /\ vec' = vec1
          /\ spaceOff' = 0 /\ spaceLen' = ReadMax /\ spaceInVec' = FALSE
       ELSE IF start1 > ArraySize - end1 THEN
          /\ arr' = [i \in 1..ArraySize |-> IF i <= end1 - start1 THEN arr1[start1 + i] ELSE arr1[i]]
          /\ start' = 0 /\ end' = end1 - start1 /\ vec' = vec1
          /\ spaceOff' = end1 - start1 /\ spaceLen' = Min(start1, ReadMax) /\ spaceInVec' = FALSE
       ELSE
          /\ arr' = arr1 /\ vec' = vec1 /\ start' = start1 /\ end' = end1
          /\ spaceOff' = end1 /\ spaceLen' = Min(ArraySize - end1, ReadMax) /\ spaceInVec' = FALSE

Return ==
    /\ Abs!Return(more)
    /\ IF more THEN Rearrange /\ UNCHANGED prevStart ELSE UNCHANGED implVars

Next == \/ \E n \in 1..MaxStream : Receive(n)
        \/ \E n \in 1..MaxStream : Take(n)
        \/ Stop("on") \/ Stop("stop")
        \/ Notified
        \/ Return
Spec == Init /\ [][Next]_vars

Refines == Abs!Spec
\* The handler reads exactly the unconsumed part of the stream
Content == phase \in {"offer", "wait"} =>
              /\ end - start = received - consumed
              /\ \A i \in 1..(end - start) : Mem[start + i] = consumed + i - 1
SpaceUsable == phase = "wait" =>
              /\ spaceLen > 0
              /\ spaceOff >= end /\ spaceOff + spaceLen <= Len(Mem)
              /\ spaceInVec = (vec # <<>>)
              /\ spaceOff = end
=============================================================================
