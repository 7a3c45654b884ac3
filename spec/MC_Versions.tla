------------------------------ MODULE MC_Versions ------------------------------
(* The caching server: a cache under a lock that readers share and writers have alone, with the pages that outlive a     *)
(* reload in a list of their own.  Every way it can proceed has to be one that Versions permits.                         *)
(* Bug: "unlocked" does not take the lock while adding a page to the cache (a reader can then see it half done),         *)
(* "first" keeps the first version of the page, "forget" applies the list in reverse order after a reload.               *)
EXTENDS Versions, Sequences
CONSTANTS Bug, Most, Reloads
VARIABLES cache, list, pc, reading, reloads, wv
mvars == <<vvars, cache, list, pc, reading, reloads, wv>>
Half == -2
MInit == /\ VInit /\ cache = -1 /\ list = <<>> /\ pc = "idle" /\ reading = [r \in Readers |-> "no"] /\ reloads = 0 /\ wv = -1
NoReaders == \A r \in Readers : reading[r] # "in"
WriteStart == /\ pc = "idle" /\ begun < Most /\ PutStart(begun + 1) /\ wv' = begun + 1 /\ pc' = "lock" /\ UNCHANGED <<cache, list, reading, reloads>>
\* cache.insert: in two steps, so that it is visible if it is not protected
WriteBegin == /\ pc = "lock" /\ (NoReaders \/ Bug = "unlocked") /\ pc' = "writing"
              /\ cache' = IF Bug = "first" /\ cache >= 0 THEN cache ELSE Half
              /\ UNCHANGED <<vvars, list, reading, reloads, wv>>
WriteMore == /\ pc = "writing" /\ pc' = "unlock" /\ cache' = (IF cache = Half THEN wv ELSE cache) /\ list' = Append(list, wv)
             /\ UNCHANGED <<vvars, reading, reloads, wv>>
WriteEnd == pc = "unlock" /\ pc' = "idle" /\ PutEnd(wv) /\ UNCHANGED <<cache, list, reading, reloads, wv>>
ReloadBegin == /\ pc = "idle" /\ done >= 0 /\ reloads < Reloads /\ NoReaders /\ pc' = "reloading" /\ cache' = Half /\ reloads' = reloads + 1
               /\ UNCHANGED <<vvars, list, reading, wv>>
ReloadEnd == /\ pc = "reloading" /\ pc' = "idle" /\ cache' = (IF Bug = "forget" THEN list[1] ELSE list[Len(list)]) /\ UNCHANGED <<vvars, list, reading, reloads, wv>>
ReadStart(r) == reading[r] = "no" /\ AskStart(r) /\ reading' = [reading EXCEPT ![r] = "asked"] /\ UNCHANGED <<cache, list, pc, reloads, wv>>
ReadLock(r) == /\ reading[r] = "asked" /\ pc \notin {"reloading"} /\ (pc \notin {"writing", "unlock"} \/ Bug = "unlocked")
               /\ reading' = [reading EXCEPT ![r] = "in"] /\ UNCHANGED <<vvars, cache, list, pc, reloads, wv>>
ReadEnd(r) == reading[r] = "in" /\ AskEnd(r, cache) /\ reading' = [reading EXCEPT ![r] = "no"] /\ UNCHANGED <<cache, list, pc, reloads, wv>>
MNext == WriteStart \/ WriteBegin \/ WriteMore \/ WriteEnd \/ ReloadBegin \/ ReloadEnd \/ \E r \in Readers : ReadStart(r) \/ ReadLock(r) \/ ReadEnd(r)
MSpec == MInit /\ [][MNext]_mvars
\* A reader that has the lock can always finish
NeverStuck == \A r \in Readers : reading[r] = "in" => cache >= asked[r] /\ cache <= begun
=============================================================================
