--------------------------------- MODULE Files ---------------------------------
(* A file server: what the requests for paths are answered with, given the files under its root and the pages that were *)
(* added to it.  Kinds: "dynamic" serves what is there when it is asked, "caching" what was there when it was set up or *)
(* last reloaded.  Paths and contents are byte strings; the disk is a sequence of <<path, contents>> with paths like    *)
(* "/dir/name".                                                                                                          *)
EXTENDS Bytes, Ascii, TLC

VARIABLES kind,        \* "none", "dynamic", "caching"
          disk,        \* the regular files under the root
          cached,      \* those the caching server took over
          pages,       \* the pages added: <<path, chunks, known>>, later ones first
          runs         \* texts that generators wrote since the last reply
fvars == <<kind, disk, cached, pages, runs>>

Slash == 47
Dot == 46
Lookup(files, path) == LET is == {i \in 1..Len(files) : files[i][1] = path} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
Put(files, path, contents) == IF Lookup(files, path) = 0 THEN Append(files, <<path, contents>>)
                              ELSE [files EXCEPT ![Lookup(files, path)] = <<path, contents>>]
Remove(files, path) == SelectSeq(files, LAMBDA f : f[1] # path)

\* ---- the parts of a path
RECURSIVE LastOf(_, _, _)
LastOf(b, i, c) == IF i = 0 THEN 0 ELSE IF b[i] = c THEN i ELSE LastOf(b, i - 1, c)
BaseName(path) == From(path, LastOf(path, Len(path), Slash) + 1)
\* The part after the last dot that does not begin the name
Extension(path) == LET name == BaseName(path)
                       dot == LastOf(name, Len(name), Dot)
                   IN IF dot <= 1 THEN <<>> ELSE From(name, dot + 1)
RECURSIVE Segments(_, _)
Segments(b, i) == IF i > Len(b) THEN <<>>
                  ELSE LET j == First(b, i, {Slash})
                           end == IF j = 0 THEN Len(b) + 1 ELSE j
                       IN <<SubSeq(b, i, end - 1)>> \o Segments(b, end + 1)
\* Written plainly: absolute, no empty, hidden or relative parts
Plain(path) == /\ path # <<>> /\ path[1] = Slash /\ path[Len(path)] # Slash
               /\ LET s == Segments(path, 2) IN \A i \in 1..Len(s) : s[i] # <<>> /\ s[i][1] # Dot /\ (i = Len(s) \/ Len(s[i]) < 2 \/ SubSeq(s[i], Len(s[i]) - 1, Len(s[i])) # <<Dot, Dot>>)
\* The same path without superfluous separators
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE IF s[1] = <<>> THEN Joined(Tail(s)) ELSE <<Slash>> \o s[1] \o Joined(Tail(s))
Reduced(path) == Joined(Segments(path, 1))

\* ---- content types
sHtml == <<104, 116, 109, 108>>
Types == << <<<<104, 116, 109, 108>>, <<116, 101, 120, 116, 47, 104, 116, 109, 108>>>>,                                        \* html  text/html
            <<<<106, 115>>, <<116, 101, 120, 116, 47, 106, 97, 118, 97, 115, 99, 114, 105, 112, 116>>>>,                        \* js    text/javascript
            <<<<99, 115, 115>>, <<116, 101, 120, 116, 47, 99, 115, 115>>>>,                                                     \* css   text/css
            <<<<106, 115, 111, 110>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 106, 115, 111, 110>>>>,         \* json  application/json
            <<<<106, 112, 103>>, <<105, 109, 97, 103, 101, 47, 106, 112, 101, 103>>>>,                                          \* jpg   image/jpeg
            <<<<106, 112, 101, 103>>, <<105, 109, 97, 103, 101, 47, 106, 112, 101, 103>>>>,                                     \* jpeg  image/jpeg
            <<<<112, 110, 103>>, <<105, 109, 97, 103, 101, 47, 112, 110, 103>>>>,                                               \* png   image/png
            <<<<103, 105, 102>>, <<105, 109, 97, 103, 101, 47, 103, 105, 102>>>>,                                               \* gif   image/gif
            <<<<105, 99, 111>>, <<105, 109, 97, 103, 101, 47, 118, 110, 100, 46, 109, 105, 99, 114, 111, 115, 111, 102, 116, 46, 105, 99, 111, 110>>>>, \* ico image/vnd.microsoft.icon
            <<<<115, 118, 103>>, <<105, 109, 97, 103, 101, 47, 115, 118, 103, 43, 120, 109, 108>>>>,                            \* svg   image/svg+xml
            <<<<98, 109, 112>>, <<105, 109, 97, 103, 101, 47, 98, 109, 112>>>>,                                                 \* bmp   image/bmp
            <<<<116, 116, 102>>, <<102, 111, 110, 116, 47, 116, 116, 102>>>>,                                                        \* ttf   font/ttf
            <<<<103, 122>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 103, 122, 105, 112>>>>,                   \* gz    application/gzip
            <<<<120, 109, 108>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 109, 108>>>> >>                 \* xml   application/xml
sApplication == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47>>
\* The type of what is at a path.  What is not known is some application/..., with its own extension if it has one.
TypeOk(path, type) ==
    LET ext == Extension(path)
        known == Lookup(Types, Lower(ext))
    IN IF known > 0 THEN type = Types[known][2]
       ELSE IF ext = <<>> THEN Len(type) > Len(sApplication) /\ IsPrefixOf(sApplication, type)
       ELSE type = sApplication \o ext \/ type = sApplication \o Lower(ext)

\* ---- replies: [k: "file" | "refused" | "failed", type, announced (-1: not), b]
Complete(r, path, contents) == r.k = "file" /\ r.b = contents /\ r.announced \in {-1, Len(contents)} /\ TypeOk(path, r.type)
Refused(r) == r.k = "refused" /\ r.b = <<>>

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

StartPage == <<Slash, 105, 110, 100, 101, 120, 46>> \o sHtml
\* May this be the reply to a request for the path?
Reply(path, r) ==
    LET page == Lookup(pages, path)
        files == IF kind = "dynamic" THEN disk ELSE cached
        file == Lookup(files, path)
        start == Lookup(files, StartPage)
        startMade == Lookup(pages, StartPage)
        Start == \/ start > 0 /\ Complete(r, StartPage, files[start][2])
                 \/ startMade > 0 /\ ((runs # <<>> /\ Complete(r, StartPage, runs[Len(runs)])) \/ Refused(r) \/ (kind = "caching" /\ Complete(r, StartPage, Concat(pages[startMade][2]))))
                 \/ start = 0 /\ Refused(r)
    IN IF page > 0
       THEN \/ kind = "dynamic" /\ runs # <<>> /\ Complete(r, path, runs[Len(runs)])      \* what its generator wrote for this request
            \/ kind = "caching" /\ runs = <<>> /\ Complete(r, path, Concat(pages[page][2]))
       ELSE /\ runs = <<>> \/ startMade > 0
            /\ IF kind = "caching"
               THEN IF path = <<Slash>> THEN Start
                    ELSE IF file > 0 THEN Complete(r, path, files[file][2]) ELSE Refused(r)
               ELSE IF path = <<Slash>> THEN Start
                    ELSE IF path = <<>> \/ path[Len(path)] = Slash THEN Start \/ Refused(r)
                    ELSE IF Plain(path) THEN IF file > 0 THEN Complete(r, path, files[file][2]) ELSE Refused(r)
                    \* A path that is not written plainly can be refused, or lead to the same file as the plain one if that's not hidden
                    ELSE \/ Refused(r)
                         \/ LET reduced == Reduced(path)
                                same == Lookup(files, reduced)
                            IN path[1] = Slash /\ Plain(reduced) /\ same > 0 /\ Complete(r, path, files[same][2])

Init == kind = "none" /\ disk = <<>> /\ cached = <<>> /\ pages = <<>> /\ runs = <<>>
Write(path, contents) == disk' = Put(disk, path, contents) /\ UNCHANGED <<kind, cached, pages, runs>>
Delete(path) == disk' = Remove(disk, path) /\ UNCHANGED <<kind, cached, pages, runs>>
Start(k) == kind' = k /\ cached' = disk /\ pages' = <<>> /\ runs' = <<>> /\ UNCHANGED disk
Reload == kind = "caching" /\ cached' = disk /\ UNCHANGED <<kind, disk, pages, runs>>
Reset == kind = "caching" /\ cached' = disk /\ pages' = <<>> /\ UNCHANGED <<kind, disk, runs>>
Add(name, chunks) == pages' = <<<<(<<Slash>> \o name), chunks>>>> \o pages /\ UNCHANGED <<kind, disk, cached, runs>>
Generate(text) == runs' = Append(runs, text) /\ UNCHANGED <<kind, disk, cached, pages>>
Get(path, r) == (Reply(path, r)) = TRUE /\ runs' = <<>> /\ UNCHANGED <<kind, disk, cached, pages>>
\* A file that gets shorter while it is being sent: the rest can't be made up
GetCut(path, contents, r) == /\ kind = "dynamic"
                             /\ \/ (Lookup(pages, path) = 0 /\ Plain(path) /\ r.k = "failed" /\ IsPrefixOf(r.b, contents)) = TRUE
                                \/ (Reply(path, r)) = TRUE
                                \/ (Lookup(pages, path) = 0 /\ Plain(path) /\ Complete(r, path, contents)) = TRUE
                             /\ runs' = <<>> /\ UNCHANGED <<kind, disk, cached, pages>>
=============================================================================
