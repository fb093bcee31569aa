------------------------------- MODULE Stats -------------------------------
(* The statistics file: detections of a chunk arrive one at a time and each group keeps a running count, extremes and the sorted values so far;
   when the chunk ends its groups are appended.  With whole objects in each chunk (Whole) the rows of the file are the summaries of all
   detections, one for each object and filter.                                                                             *)
EXTENDS StatRules
CONSTANTS Objects, Filters, MaxDet, Mags, Whole
SX == INSTANCE SequencesExt
VARIABLES rows, acc, file, closed
vars == <<rows, acc, file, closed>>
Init == rows = <<>> /\ acc = <<>> /\ file = <<>> /\ closed = {}
Find(o, f) == { i \in DOMAIN acc : acc[i].o = o /\ acc[i].f = f }
InsertSorted(s, m) == LET k == Cardinality({ i \in DOMAIN s : s[i] <= m }) IN SubSeq(s, 1, k) \o <<m>> \o SubSeq(s, k + 1, Len(s))
Detect(o, f, m) ==
  /\ Len(rows) < MaxDet /\ o \notin closed
  /\ rows' = Append(rows, [o |-> o, f |-> f, mag |-> m, ph |-> m, linked |-> TRUE, date |-> 1])
  /\ acc' = IF Find(o, f) = {} THEN Append(acc, [o |-> o, f |-> f, n |-> 1, lo |-> m, hi |-> m, sorted |-> <<m>>])
            ELSE LET i == CHOOSE x \in Find(o, f) : TRUE IN
                 [acc EXCEPT ![i] = [@ EXCEPT !.n = @ + 1, !.lo = IF m < @ THEN m ELSE @, !.hi = IF m > @ THEN m ELSE @, !.sorted = InsertSorted(@, m)]]
  /\ UNCHANGED <<file, closed>>
\* the objects of a chunk do not come back in a later one
EndChunk == /\ acc # <<>> /\ file' = file \o acc /\ acc' = <<>>
            /\ closed' = (IF Whole THEN closed \cup { acc[i].o : i \in DOMAIN acc } ELSE closed) /\ UNCHANGED rows
Next == (\E o \in Objects, f \in Filters, m \in Mags : Detect(o, f, m)) \/ EndChunk
Spec == Init /\ [][Next]_vars
Middle2(s) == IF Len(s) % 2 = 1 THEN 2 * s[(Len(s) + 1) \div 2] ELSE s[Len(s) \div 2] + s[Len(s) \div 2 + 1]
Line(a) == <<a.o, a.f, a.n, a.lo, a.hi, Middle2(a.sorted)>>
Want(o, f) == LET s == Summary(rows, o, f) IN <<o, f, s.n, s.lo, s.hi, s.med2>>
OneRowEach == acc = <<>> => Len(file) = Cardinality(Keys(rows))
Exact == acc = <<>> => { Line(file[i]) : i \in DOMAIN file } = { Want(k[1], k[2]) : k \in Keys(rows) }
=============================================================================
