------------------------------ MODULE Readers ------------------------------
(* A table reader: a text file of lines (comments, header, rows) read by skipping lines, optionally keeping the whole table in memory
   and building the map of identifiers on first use.  The model works as a text reader must (which physical lines to skip);
   the properties are about rows: blocks tile the file, look-ups return whole objects.                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ids, MaxRows, MaxPre, MaxSize
VARIABLES rows, pre, caching, table, idmap, cursor, tiled, res, want
vars == <<rows, pre, caching, table, idmap, cursor, tiled, res, want>>
NoTable == <<>>

\* physical lines: 1 .. pre comments, pre + 1 the header, then the rows
Lines == pre + 1 + Len(rows)
\* what a line reader returns when it skips the lines in Skip and stops after n rows: the first kept line is the header
Kept(Skip) == { x \in 1 .. Lines : x \notin Skip }
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Collect(_, _)
Collect(from, Skip) == IF from > Lines THEN <<>> ELSE (IF from \in Skip THEN <<>> ELSE <<from - pre - 1>>) \o Collect(from + 1, Skip)
ReadLines(Skip, n) ==
  LET k == CHOOSE x \in Kept(Skip) : \A y \in Kept(Skip) : x <= y
  IN IF k # pre + 1 THEN <<-1>> ELSE LET c == Collect(k + 1, Skip) IN SubSeq(c, 1, Min(n, Len(c)))

All == [i \in 1 .. Len(rows) |-> i]
Block(start, n) == SubSeq(All, start + 1, Min(start + n, Len(rows)))
Of(S) == SelectSeq(All, LAMBDA i : rows[i] \in S)

Init == /\ rows \in UNION { [1 .. n -> Ids] : n \in 1 .. MaxRows }
        /\ pre \in 0 .. MaxPre /\ caching \in BOOLEAN
        /\ table = NoTable /\ idmap = NoTable /\ cursor = 0 /\ tiled = <<>> /\ res = <<>> /\ want = <<>>

BlockSkip(start) == (1 .. pre) \cup (pre + 2 .. pre + 1 + start)
FromFile(start, n) == ReadLines(BlockSkip(start), n)
Rd(start, n) == IF caching THEN SubSeq(IF table = NoTable THEN FromFile(0, Len(rows)) ELSE table, start + 1, Min(start + n, Len(rows)))
                ELSE FromFile(start, n)
Load == IF caching /\ table = NoTable THEN table' = FromFile(0, Len(rows)) ELSE UNCHANGED table

ReadBlock(start, n) == /\ res' = Rd(start, n) /\ want' = Block(start, n) /\ Load
                       /\ UNCHANGED <<rows, pre, caching, idmap, cursor, tiled>>
NextBlock(n) == /\ cursor < Len(rows)
                /\ res' = Rd(cursor, n) /\ want' = Block(cursor, n) /\ Load
                /\ tiled' = tiled \o Rd(cursor, n) /\ cursor' = cursor + Len(Rd(cursor, n))
                /\ UNCHANGED <<rows, pre, caching, idmap>>
Map == IF idmap = NoTable THEN [i \in 1 .. Len(rows) |-> rows[i]] ELSE idmap
ObjSkip(S) == (1 .. pre) \cup { pre + 1 + i : i \in { j \in 1 .. Len(rows) : Map[j] \notin S } }
ReadObjects(S) == /\ IF caching THEN /\ Load /\ UNCHANGED idmap
                                     /\ res' = SelectSeq(IF table = NoTable THEN FromFile(0, Len(rows)) ELSE table, LAMBDA i : rows[i] \in S)
                     ELSE idmap' = Map /\ UNCHANGED table /\ res' = ReadLines(ObjSkip(S), Len(rows))
                  /\ want' = Of(S) /\ UNCHANGED <<rows, pre, caching, cursor, tiled>>
Next == \/ \E s \in 0 .. MaxRows, n \in 1 .. MaxSize : ReadBlock(s, n)
        \/ \E n \in 1 .. MaxSize : NextBlock(n)
        \/ \E S \in SUBSET Ids : ReadObjects(S)
Spec == Init /\ [][Next]_vars
Exact == res = want
Tiles == tiled = SubSeq(All, 1, cursor)
TilesAll == cursor = Len(rows) => tiled = All
=============================================================================
