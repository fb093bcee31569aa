---------------------------- MODULE TraceReader ----------------------------
(* Validates the answers of real readers.  file: the rows written ([id, obj]); block: rows start+1 .. start+size; next: the block at the
   reader's own cursor (combined readers); look: all rows of the asked identifiers.  Each answer is a list of row ids (0: a row that is
   none of the file's, by value or type of identifier).                                                                          *)
EXTENDS TraceBase
VARIABLES file, cur
Bound(x, n) == IF x < n THEN x ELSE n
Ids(rows) == [i \in DOMAIN rows |-> rows[i].id]
Blk(s, n) == SubSeq(Ids(file.rows), s + 1, Bound(s + n, Len(file.rows)))
Of(S) == Ids(SelectSeq(file.rows, LAMBDA r : r.obj \in S))
Set(s) == { s[i] : i \in DOMAIN s }
BlockClauses(e) == << <<"no-error", e.error = "">>,
                      <<"block-is-the-rows-asked-for", e.error = "" => e.rows = Blk(e.start, e.size)>> >>
NextClauses(e) == << <<"no-error", e.error = "">>,
                     <<"blocks-tile-the-file", e.error = "" => e.rows = Blk(cur, e.size)>> >>
LookClauses(e) ==
  LET w == Of(Set(e.objs)) IN
  << <<"no-error", e.error = "">>,
     <<"all-rows-of-the-objects", e.error = "" => Set(w) \subseteq Set(e.rows)>>,
     <<"no-other-rows", e.error = "" => Set(e.rows) \subseteq Set(w)>>,
     <<"each-row-once", e.error = "" => Len(e.rows) = Cardinality(Set(e.rows))>> >>
\* a combined block: the candidate rows of the block's objects, joined with each object's own parameters
JoinClauses(e) ==
  LET objs == { r.obj : r \in Set(SubSeq(file.rows, cur + 1, Bound(cur + e.size, Len(file.rows)))) }
      w == Ids(SelectSeq(e.cand, LAMBDA r : r.obj \in objs))
  IN << <<"no-error", e.error = "">>,
        <<"candidates-of-the-blocks-objects", e.error = "" => Set(e.rows) = Set(w)>>,
        <<"each-row-once", e.error = "" => Len(e.rows) = Cardinality(Set(e.rows))>>,
        <<"joined-to-own-parameters", e.error = "" => e.own>> >>
TraceInit == BaseInit /\ file = [rows |-> <<>>] /\ cur = 0
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     CASE e.ev = "file" -> file' = e /\ cur' = 0 /\ Advance({})
       [] e.ev = "block" -> UNCHANGED <<file, cur>> /\ Advance(Failing(BlockClauses(e)))
       [] e.ev = "next" -> UNCHANGED file /\ cur' = Bound(cur + e.size, Len(file.rows)) /\ Advance(Failing(NextClauses(e)))
       [] e.ev = "join" -> UNCHANGED file /\ cur' = Bound(cur + e.size, Len(file.rows)) /\ Advance(Failing(JoinClauses(e)))
       [] e.ev = "look" -> UNCHANGED <<file, cur>> /\ Advance(Failing(LookClauses(e)))
       [] OTHER -> UNCHANGED <<file, cur>> /\ Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, file, cur>>
=============================================================================
