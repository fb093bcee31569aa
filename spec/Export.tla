----------------------------- MODULE Export -----------------------------
(* A run generates ephemerides chunk by chunk and appends them to a file; a later run reads the file, chunk by chunk, possibly in chunks of another size.
   Object o has cand[o] candidates; culled objects have none generated, in either run's view.  A row is <<object, visit>>; rows of a chunk come visit by visit.
   Checked: the file is what the run used, in order; the second run uses the same rows for each object; a chunk without candidates adds nothing and breaks nothing. *)
EXTENDS ExportRules, TLC, Json
CONSTANTS N, MaxCand, Variant, Emit
VARIABLES cand, size, size2, next, used, file, next2, used2, phase
vars == <<cand, size, size2, next, used, file, next2, used2, phase>>
Obj(r) == r[1]
ChunkOf(k, s) == { o \in 1..N : (k - 1) * s < o /\ o <= k * s }
RECURSIVE ByVisit(_, _)
ByVisit(objs, v) == IF v > MaxCand THEN <<>> ELSE
                    LET S == { o \in objs : cand[o] >= v }
                        RECURSIVE Ord(_)
                        Ord(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<<<m, v>>>> \o Ord(T \ {m})
                    IN Ord(S) \o ByVisit(objs, v + 1)
Chunks(s) == (N + s - 1) \div s
Init == /\ cand \in [ 1..N -> 0..MaxCand ] /\ size \in 1..N /\ size2 \in 1..N
        /\ next = 1 /\ used = <<>> /\ file = <<>> /\ next2 = 1 /\ used2 = <<>> /\ phase = "write"
Write(rows) == CASE Variant = "overwrite" -> rows
                 [] Variant = "skipfirst" /\ next = 1 -> <<>>
                 [] Variant = "stopempty" /\ next > 1 /\ used[next - 1] = <<>> -> file
                 [] Variant = "again" /\ rows = <<>> /\ next > 1 -> file \o used[next - 1]
                 [] OTHER -> file \o rows
Chunk == /\ phase = "write" /\ next <= Chunks(size)
         /\ LET rows == ByVisit(ChunkOf(next, size), 1) IN used' = Append(used, rows) /\ file' = Write(rows)
         /\ next' = next + 1 /\ UNCHANGED <<cand, size, size2, next2, used2, phase>>
Turn == phase = "write" /\ next > Chunks(size) /\ phase' = "read" /\ UNCHANGED <<cand, size, size2, next, used, file, next2, used2>>
Read == /\ phase = "read" /\ next2 <= Chunks(size2)
        /\ used2' = Append(used2, Of(file, IF Variant = "offbyone" THEN { o + 1 : o \in ChunkOf(next2, size2) } ELSE ChunkOf(next2, size2), Obj))
        /\ next2' = next2 + 1 /\ UNCHANGED <<cand, size, size2, next, used, file, phase>>
Next == Chunk \/ Turn \/ Read
Spec == Init /\ [][Next]_vars
FileIsUsed == file = Concat(used)
SameRows == phase = "read" => \A k \in DOMAIN used2 : Bag(used2[k]) = Bag(ByVisit(ChunkOf(k, size2), 1))
SameOrder == (phase = "read" /\ size = size2) => \A k \in DOMAIN used2 : used2[k] = used[k]
(* scenarios *)
Tell == (Emit /\ phase = "write" /\ next = 1 /\ size2 = size) => PrintT("SCN " \o ToJson([ cand |-> cand, size |-> size ]))
=============================================================================
