-------------------------------- MODULE MC_Files -------------------------------
(* Every path over the bytes below, resolved as the dynamic server does it (checks of the text, appending to the root,   *)
(* and what the file system makes of that), against what Files permits as the reply.                                     *)
(* Bug: "absolute" lets a path continue with a separator, so that it replaces the root; "first" does not check that it   *)
(* starts with one; "dots" does not exclude hidden names and parents.                                                   *)
EXTENDS Files, Json
CONSTANTS Bug, Most, Emit
VARIABLE path
a == 97
\* Files of the whole file system, by the names on the way; the root of the server is /r
Outer == { <<<<a>>>>, <<<<a, a>>, <<a>>>>, <<<<114>>, <<a>>>>, <<<<114>>, <<a, a>>, <<a>>>>, <<<<114>>, <<Dot, a>>>>, <<<<114>>, <<a, Dot, a>>>>, <<<<114>>, <<a, a>>, <<Dot, a>>>>, <<<<114>>, <<a, Dot, Dot>>, <<a>>>> }
Dirs == {<<>>} \cup UNION { {SubSeq(f, 1, n) : n \in 1..(Len(f) - 1)} : f \in Outer }
Contents(f) == f[1] \o Concat(f)      \* something different for each
Under == SelectSeq(<< <<<<114>>, <<a>>>>, <<<<114>>, <<a, a>>, <<a>>>>, <<<<114>>, <<Dot, a>>>>, <<<<114>>, <<a, Dot, a>>>>, <<<<114>>, <<a, a>>, <<Dot, a>>>>, <<<<114>>, <<a, Dot, Dot>>, <<a>>>> >>, LAMBDA f : TRUE)
Disk == [i \in 1..Len(Under) |-> <<Joined(Tail(Under[i])), Contents(Under[i])>>]
\* What the file system makes of an absolute path: the names on the way, or <<<<0>>>> if there is nothing
None == <<<<0>>>>
RECURSIVE Walk(_, _)
Walk(at, names) ==
    IF names = <<>> THEN at
    ELSE IF at \notin Dirs THEN None
    ELSE IF names[1] = <<>> \/ names[1] = <<Dot>> THEN Walk(at, Tail(names))
    ELSE IF names[1] = <<Dot, Dot>> THEN Walk(IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1), Tail(names))
    ELSE LET next == Append(at, names[1]) IN IF next \in Dirs \/ next \in Outer THEN Walk(next, Tail(names)) ELSE None
\* std::filesystem's append: something absolute replaces everything
Appended(root, p) == IF p # <<>> /\ p[1] = Slash THEN p ELSE root \o <<Slash>> \o p
NoReply == [k |-> "refused", type |-> <<>>, announced |-> -1, b |-> <<>>]
TypeFor(p) == LET x == Extension(p) IN sApplication \o (IF x = <<>> THEN <<120>> ELSE x)
Server(p) ==
    LET edited == IF p = <<>> \/ p[Len(p)] = Slash THEN StartPage ELSE p
        bad == \/ edited[1] # Slash /\ Bug # "first"
               \/ Len(edited) > 1 /\ edited[2] = Slash /\ Bug # "absolute"
               \/ Bug # "dots" /\ (Contains(edited, <<Dot, Dot, Slash>>) \/ Contains(edited, <<Slash, Dot>>))
        full == Appended(<<Slash, 114>>, Tail(edited))
        there == Walk(<<>>, Segments(full, 2))
    IN IF bad \/ there \notin Outer THEN NoReply
       ELSE [k |-> "file", type |-> TypeFor(edited), announced |-> Len(Contents(there)), b |-> Contents(there)]
MInit == kind = "dynamic" /\ disk = Disk /\ cached = <<>> /\ pages = <<>> /\ runs = <<>> /\ path = <<>>
MNext == Len(path) < Most /\ \E c \in {Slash, Dot, a} : path' = Append(path, c) /\ UNCHANGED fvars
MSpec == MInit /\ [][MNext]_<<fvars, path>>
Right == Reply(path, Server(path))
Report == Emit => PrintT(<<"H", ToJson(path)>>)
=============================================================================
