------------------------------- MODULE Output -------------------------------
(* The three writers of detections, appending a chunk at a time: csv writes its header when the file is not there yet, sqlite appends to a
   table and is indexed after the last chunk, hdf5 appends to a table whose text columns have a width and whose number columns have a type fixed
   by the first chunk, and is rebuilt when a chunk does not fit.  Values are tenths; decimals 9 keeps them.                           *)
EXTENDS Rounding, Sequences, FiniteSets
CONSTANTS MaxChunks, MaxPer, Widths, Values, Formats, Decimals, Rebuild
VARIABLES fmt, dec, chunks, k, file, header, table, index, pc
vars == <<fmt, dec, chunks, k, file, header, table, index, pc>>

RowT == [w : Widths, v : Values]
ChunkT == UNION { [1 .. n -> RowT] : n \in 0 .. MaxPer }
\* tenths to d decimals (d = 0 or 1; 9: as it is); ties go to the even neighbour
Even(x) == IF (x \div 10) % 2 = 0 THEN x ELSE x + 10
Round(v, d) == IF d = 0 THEN (IF v % 10 = 5 THEN Even(v - 5) ELSE ((v + 5) \div 10) * 10) ELSE v
Line(r) == [w |-> r.w, v |-> Round(r.v, dec)]
Lines(c) == [i \in DOMAIN c |-> Line(c[i])]
MaxW(c) == LET S == { c[i].w : i \in DOMAIN c } IN CHOOSE m \in S : \A n \in S : n <= m
NoTable == [width |-> 0]

Init == /\ fmt \in Formats /\ dec \in Decimals
        /\ chunks \in UNION { [1 .. n -> ChunkT] : n \in 1 .. MaxChunks }
        /\ k = 0 /\ file = <<>> /\ header = 0 /\ table = NoTable /\ index = FALSE /\ pc = "loop"

\* a chunk without detections is not written
Empty == pc = "loop" /\ k < Len(chunks) /\ chunks[k + 1] = <<>> /\ k' = k + 1 /\ UNCHANGED <<fmt, dec, chunks, file, header, table, index, pc>>
C == chunks[k + 1]
CSV == /\ pc = "loop" /\ k < Len(chunks) /\ C # <<>> /\ fmt = "csv"
       /\ header' = (IF file = <<>> THEN header + 1 ELSE header)
       /\ file' = file \o Lines(C) /\ k' = k + 1 /\ UNCHANGED <<fmt, dec, chunks, table, index, pc>>
SQL == /\ pc = "loop" /\ k < Len(chunks) /\ C # <<>> /\ fmt = "sqlite3"
       /\ header' = 1 /\ file' = file \o Lines(C) /\ k' = k + 1 /\ UNCHANGED <<fmt, dec, chunks, table, index, pc>>
Fits == table = NoTable \/ MaxW(C) <= table.width
H5 == /\ pc = "loop" /\ k < Len(chunks) /\ C # <<>> /\ fmt = "hdf5" /\ Fits
      /\ header' = 1 /\ table' = (IF table = NoTable THEN [width |-> MaxW(C)] ELSE table)
      /\ file' = file \o Lines(C) /\ k' = k + 1 /\ UNCHANGED <<fmt, dec, chunks, index, pc>>
H5Rebuild == /\ pc = "loop" /\ k < Len(chunks) /\ C # <<>> /\ fmt = "hdf5" /\ ~Fits /\ Rebuild
             /\ LET all == file \o Lines(C) IN file' = all /\ table' = [width |-> MaxW(all)]
             /\ header' = 1 /\ k' = k + 1 /\ UNCHANGED <<fmt, dec, chunks, index, pc>>
H5Fails == /\ pc = "loop" /\ k < Len(chunks) /\ C # <<>> /\ fmt = "hdf5" /\ ~Fits /\ ~Rebuild
           /\ pc' = "dead" /\ UNCHANGED <<fmt, dec, chunks, k, file, header, table, index>>
Finish == /\ pc = "loop" /\ k = Len(chunks) /\ pc' = "done"
          /\ index' = (fmt = "sqlite3" /\ file # <<>>) /\ UNCHANGED <<fmt, dec, chunks, k, file, header, table>>
Next == Empty \/ CSV \/ SQL \/ H5 \/ H5Rebuild \/ H5Fails \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Cat(_)
Cat(n) == IF n = 0 THEN <<>> ELSE Cat(n - 1) \o Lines(chunks[n])
Exact == file = Cat(k)
OneHeader == header = (IF file = <<>> THEN 0 ELSE 1)
\* rounding: to the nearest multiple of the unit, a second time changes nothing, and it respects order
Whole(v) == v \div 10
Nearest == \A v \in Values : dec = 0 => <<Whole(Round(v, 0)), 0>> \in Rounded(Whole(v), 0, (v % 10) * 100, 1, 0) /\ Round(Round(v, 0), 0) = Round(v, 0)
Monotone == \A v, x \in Values : v <= x => Round(v, dec) <= Round(x, dec)
Untouched == dec \in {9, 1} => \A v \in Values : Round(v, dec) = v
Completes == <>(pc = "done")
AllOut == pc = "done" => k = Len(chunks)
=============================================================================
