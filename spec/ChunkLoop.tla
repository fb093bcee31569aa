----------------------------- MODULE ChunkLoop -----------------------------
(* The serial chunk loop of a run.  An object contributes its own rows (0 .. MaxRows) unless it is culled or has no
   candidates; the loop takes Size objects at a time, skips chunks with nothing in them, writes after each chunk and
   announces completion at the end; it may stop at any point.                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxRows, Sizes
SX == INSTANCE SequencesExt
VARIABLES pop, size, cursor, taken, out, stats, log, pc
vars == <<pop, size, cursor, taken, out, stats, log, pc>>

Kinds == [culled : BOOLEAN, cand : BOOLEAN, rows : 0 .. MaxRows]
\* a culled object or one without candidates has no rows
Sensible(k) == (k.culled \/ ~k.cand) => k.rows = 0

Slice(c, s) == { i \in DOMAIN pop : c < i /\ i <= c + s }
RowsOf(i) == { <<i, k>> : k \in 1 .. pop[i].rows }
Own == UNION { RowsOf(i) : i \in DOMAIN pop }

Init == /\ pop \in UNION { [1 .. n -> { k \in Kinds : Sensible(k) }] : n \in 1 .. MaxN }
        /\ size \in Sizes
        /\ cursor = 0 /\ taken = <<>> /\ out = <<>> /\ stats = <<>> /\ log = <<>> /\ pc = "top"

More == cursor < Len(pop)
Hi == IF cursor + size < Len(pop) THEN cursor + size ELSE Len(pop)
ReadChunk == /\ pc = "top" /\ More
             /\ taken' = taken \o [j \in 1 .. (Hi - cursor) |-> cursor + j]
             /\ pc' = IF \A i \in Slice(cursor, size) : pop[i].culled \/ ~pop[i].cand THEN "skip" ELSE "work"
             /\ UNCHANGED <<pop, size, cursor, out, stats, log>>
Skip == pc = "skip" /\ cursor' = cursor + size /\ pc' = "top" /\ UNCHANGED <<pop, size, taken, out, stats, log>>
Batch == UNION { RowsOf(i) : i \in Slice(cursor, size) }
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SeqOf(S) == SX!SetToSortSeq(S, Before)
Write == /\ pc = "work"
         /\ IF Batch = {} THEN UNCHANGED <<out, stats>>
            ELSE out' = out \o SeqOf(Batch) /\ stats' = Append(stats, { r[1] : r \in Batch })
         /\ cursor' = cursor + size /\ pc' = "top" /\ UNCHANGED <<pop, size, taken, log>>
Finish == pc = "top" /\ ~More /\ log' = Append(log, "completed") /\ pc' = "done" /\ UNCHANGED <<pop, size, cursor, taken, out, stats>>
Crash == pc \in {"top", "work", "skip"} /\ log' = Append(log, "error") /\ pc' = "dead" /\ UNCHANGED <<pop, size, cursor, taken, out, stats>>
Next == ReadChunk \/ Skip \/ Write \/ Finish \/ Crash
Fair == WF_vars(ReadChunk) /\ WF_vars(Skip) /\ WF_vars(Write) /\ WF_vars(Finish)
Spec == Init /\ [][Next]_vars /\ Fair

\* every object taken once, in input order, whatever the chunk size
InOrder == taken = [j \in 1 .. Len(taken) |-> j]
AllTaken == pc = "done" => Len(taken) = Len(pop)
\* the output of a completed run is every object's own rows, once, in input order
Exact == pc = "done" => out = SeqOf(Own)
\* at any point it is a prefix of it: nothing is reported twice or early
Prefix == \E n \in 0 .. Cardinality(Own) : out = SubSeq(SeqOf(Own), 1, n)
StatsOnce == \A a, b \in DOMAIN stats : a # b => stats[a] \cap stats[b] = {}
StatsExact == pc = "done" => UNION { stats[a] : a \in DOMAIN stats } = { r[1] : r \in Own }
CompletedIff == (log # <<>> /\ log[Len(log)] = "completed") <=> pc = "done"
Ends == <>(pc \in {"done", "dead"})
=============================================================================
