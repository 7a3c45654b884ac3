-------------------------------- MODULE OutBuf --------------------------------
(* Output buffers as their users see them: what was appended is what is held or passed on.                             *)
EXTENDS Naturals, Integers, Sequences

CONSTANTS Bytes, MaxLen, Caps

VARIABLES kind,      \* "none", "expanding", "fixed", "streaming"
          cap,       \* size of the fixed storage
          content,   \* bytes held (for a streaming buffer: accepted and not passed on yet)
          size,      \* the number of bytes accepted
          adding     \* an append is in progress

vars == <<kind, cap, content, size, adding>>

Init == kind = "none" /\ cap = 0 /\ content = <<>> /\ size = 0 /\ adding = FALSE

New(k, c) == /\ kind = "none" /\ kind' = k /\ cap' = c /\ content' = <<>> /\ size' = 0 /\ UNCHANGED adding

Fitting(b) == IF kind # "fixed" \/ Len(content) + Len(b) <= cap THEN b ELSE SubSeq(b, 1, cap - Len(content))

Add(b) == /\ kind # "none" /\ ~adding
          /\ content' = content \o Fitting(b)
          /\ size' = size + Len(Fitting(b))
          /\ adding' = TRUE /\ UNCHANGED <<kind, cap>>
\* An append is complete; what a streaming buffer retains fits into its storage
Added == /\ adding /\ adding' = FALSE /\ (kind = "streaming" => Len(content) <= cap) /\ UNCHANGED <<kind, cap, content, size>>

\* A streaming buffer passes on some of the oldest bytes, never nothing, never more than its storage holds
Chunk(b) == /\ kind = "streaming" /\ b # <<>> /\ Len(b) <= Len(content) /\ Len(b) <= cap
            /\ SubSeq(content, 1, Len(b)) = b
            /\ content' = SubSeq(content, Len(b) + 1, Len(content))
            /\ UNCHANGED <<kind, cap, size, adding>>
Flushed == kind = "streaming" /\ content = <<>> /\ ~adding /\ UNCHANGED vars

View(b) == kind \in {"expanding", "fixed"} /\ ~adding /\ b = content /\ UNCHANGED vars
Size(n) == kind # "none" /\ ~adding /\ n = size /\ UNCHANGED vars
Clear == /\ kind \in {"expanding", "fixed"} /\ ~adding
         /\ content' = <<>> /\ size' = 0 /\ UNCHANGED <<kind, cap, adding>>
Gone == /\ kind # "none" /\ ~adding
        /\ (kind = "streaming" => content = <<>>)    \* everything was passed on by now
        /\ kind' = "none" /\ content' = <<>> /\ UNCHANGED <<cap, size, adding>>

Strings == UNION {[1..n -> Bytes] : n \in 0..3}
Next == \/ \E k \in {"expanding", "fixed", "streaming"}, c \in Caps : New(k, c)
        \/ \E b \in Strings : size + Len(b) <= MaxLen /\ Add(b)
        \/ Added \/ Clear \/ Gone
        \/ \E n \in 1..Len(content) : Chunk(SubSeq(content, 1, n))
Spec == Init /\ [][Next]_vars

FixedNeverOverflows == kind = "fixed" => Len(content) <= cap
SizeIsAccepted == kind \in {"expanding", "fixed"} => size = Len(content)
StreamingKeepsOrder == kind = "streaming" => Len(content) <= size
=============================================================================
