---------------------------- MODULE TraceOutput ----------------------------
(* Detections files.  event file:  want / got: rows the run reported in memory and rows of the file, as identifiers (the unrounded columns
   of a row, exactly), in order;  cols / gotcols: requested and found columns;  headers: how many header lines;  error, completed;
   pdec, mdec: requested decimals, -1 when not;  vals: rounded cells [kind, w, u, rest, base] before, [w2, u2, rest2] after.
   event twin: the same run in another format:  rows of both.                                                        *)
EXTENDS TraceBase, Rounding
Occ(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
Els(s) == { s[i] : i \in DOMAIN s }
SameBag(a, b) == Len(a) = Len(b) /\ (a = b \/ \A x \in Els(a) \cup Els(b) : Occ(a, x) = Occ(b, x))
CellOK(c) == /\ <<c.w2, c.u2>> \in Rounded(c.w, c.u, c.rest, c.base, 2)
             /\ c.rest2 = 0
Clauses(e) == <<
  <<"run-completes", e.error = "" /\ e.completed>>,
  <<"every-detection-written", \A x \in Els(e.want) : Occ(e.got, x) >= Occ(e.want, x)>>,
  <<"nothing-else-written", \A x \in Els(e.got) : Occ(e.got, x) <= Occ(e.want, x)>>,
  <<"as-many-rows", Len(e.got) = Len(e.want)>>,
  <<"one-header", e.headers = (IF e.file THEN 1 ELSE 0)>>,
  <<"file-when-detections", (e.want # <<>>) => e.file>>,
  <<"requested-columns", e.file => e.gotcols = e.cols>>,
  <<"positions-rounded", \A i \in DOMAIN e.vals : e.vals[i].kind = "p" => CellOK(e.vals[i])>>,
  <<"magnitudes-rounded", \A i \in DOMAIN e.vals : e.vals[i].kind = "m" => CellOK(e.vals[i])>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "file" -> Advance(Failing(Clauses(e)))
                  [] e.ev = "twin" -> Advance(Failing(<< <<"same-rows-in-every-format", SameBag(e.a, e.b)>> >>))
                  [] e.ev = "empty" -> Advance(Failing(<< <<"run-completes", e.error = "" /\ e.completed>>, <<"no-detections-no-rows", e.rows = 0>> >>))
                  [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
