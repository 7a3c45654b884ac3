------------------------------ MODULE OutBufImpl ------------------------------
(* The way the buffers grow: bytes are copied in pieces that fit; a full buffer is extended to three times the fixed   *)
(* storage, later doubled, or flushed.  Refines OutBuf: TLC checks that what a reader would see is what was appended.  *)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS MaxLen, Caps
VARIABLES kind, cap, content, size, adding,    \* abstract state
          basic, ext,                          \* memory
          pos,                                 \* next byte is written here (in ext if it is used)
          todo, count, lastFlush
vars == <<kind, cap, content, size, adding, basic, ext, pos, todo, count, lastFlush>>
Abs == INSTANCE OutBuf WITH Bytes <- 0..MaxLen
Garbage(n) == [i \in 1..n |-> -1]
Put(mem, at, b) == [i \in 1..Len(mem) |-> IF i > at /\ i <= at + Len(b) THEN b[i - at] ELSE mem[i]]

Init == /\ Abs!Init /\ basic = <<>> /\ ext = <<>> /\ pos = 0 /\ todo = <<>> /\ count = 0 /\ lastFlush = 0
New(k, c) == /\ Abs!New(k, c) /\ basic' = Garbage(c) /\ ext' = <<>> /\ pos' = 0 /\ todo' = <<>> /\ count' = 0 /\ lastFlush' = 0
\* The bytes of one append are distinct and increasing so that the order matters
Fresh(n) == [i \in 1..n |-> (size + i) % (MaxLen + 1)]
Start(n) == /\ size + n <= MaxLen /\ Abs!Add(Fresh(n)) /\ todo' = Fresh(n) /\ UNCHANGED <<basic, ext, pos, count, lastFlush>>
Space == (IF ext = <<>> THEN Len(basic) ELSE Len(ext)) - pos
Min(a, b) == IF a < b THEN a ELSE b
\* One piece, up to the end of the space
Piece ==
    /\ adding /\ todo # <<>> /\ Space > 0
    /\ LET n == Min(Len(todo), Space)
           b == SubSeq(todo, 1, n)
           mem == Put(IF ext = <<>> THEN basic ELSE ext, pos, b)
           full == n = Space
       IN /\ count' = count + n
          /\ todo' = SubSeq(todo, n + 1, Len(todo))
          /\ IF ~full \/ kind = "fixed"
             THEN /\ pos' = pos + n /\ UNCHANGED <<lastFlush, kind, cap, content, size, adding>>
                  /\ IF ext = <<>> THEN basic' = mem /\ UNCHANGED ext ELSE ext' = mem /\ UNCHANGED basic
             ELSE IF kind = "streaming"
             THEN /\ Abs!Chunk(SubSeq(mem, 1, count + n - lastFlush))
                  /\ lastFlush' = count + n /\ pos' = 0 /\ basic' = mem /\ UNCHANGED ext
             ELSE /\ UNCHANGED <<lastFlush, kind, cap, content, size, adding>>
                  /\ pos' = pos + n
                  /\ IF ext = <<>> THEN ext' = mem \o Garbage(2 * cap) /\ basic' = mem
                     ELSE ext' = mem \o Garbage(Len(mem)) /\ UNCHANGED basic
DropRest == kind = "fixed" /\ adding /\ todo # <<>> /\ Space = 0 /\ todo' = <<>>
            /\ UNCHANGED <<kind, cap, content, size, adding, basic, ext, pos, count, lastFlush>>
Done == adding /\ todo = <<>> /\ Abs!Added /\ UNCHANGED <<basic, ext, pos, todo, count, lastFlush>>
Clear == Abs!Clear /\ ext' = <<>> /\ pos' = 0 /\ count' = 0 /\ UNCHANGED <<basic, todo, lastFlush>>
FlushAtEnd == /\ kind = "streaming" /\ ~adding /\ count > lastFlush
              /\ Abs!Chunk(SubSeq(basic, 1, count - lastFlush)) /\ lastFlush' = count /\ pos' = 0
              /\ UNCHANGED <<basic, ext, todo, count>>
Gone == /\ Abs!Gone /\ UNCHANGED <<basic, ext, pos, todo, count, lastFlush>>
Next == \/ \E k \in {"expanding", "fixed", "streaming"}, c \in Caps : New(k, c)
        \/ \E n \in 0..5 : Start(n)
        \/ Piece \/ DropRest \/ Done \/ Clear \/ FlushAtEnd \/ Gone
Spec == Init /\ [][Next]_vars
AbsNext == \/ \E k \in {"expanding", "fixed", "streaming"}, c \in Caps : Abs!New(k, c)
           \/ \E n \in 0..5 : Abs!Add(Fresh(n))
           \/ Abs!Added \/ Abs!Clear \/ Abs!Gone
           \/ \E n \in 1..Len(content) : Abs!Chunk(SubSeq(content, 1, n))
Refines == Abs!Init /\ [][AbsNext]_<<kind, cap, content, size, adding>>
ViewIsContent == (kind \in {"expanding", "fixed"} /\ ~adding) =>
    /\ SubSeq(IF ext = <<>> THEN basic ELSE ext, 1, pos) = content
    /\ count = size
=============================================================================
