----------------------------- MODULE TraceMatch -----------------------------
(* Detections against the input tables.  event tables: visits (id -> f, tok: its data), objects (name -> tok, H, colour, par by filter), main, req.
   event rows: cand (candidates: o, v, tok, and shape: for each filter, the magnitude the object would have in it if its H were 0, in 1e-6 mag), whole (no cuts were
   configured), rows (detections: o, v, f, tok of the candidate, vtok, otok, mag in 1e-6 mag), error.  Tokens are interned values, in a fixed order. *)
EXTENDS TraceBase, MatchRules
VARIABLE tab
CandOf(e, r) == { i \in DOMAIN e.cand : e.cand[i].o = r.o /\ e.cand[i].v = r.v }
Asked(v) == v \in DOMAIN tab.visits /\ \E k \in DOMAIN tab.req : tab.req[k] = tab.visits[v].f
Near(a, b) == LET d == a - b IN -2 <= d /\ d <= 2
RowClauses(e) ==
  LET D == DOMAIN e.rows
      Known(i) == e.rows[i].v \in DOMAIN tab.visits /\ e.rows[i].o \in DOMAIN tab.objects
      Good == { i \in D : Known(i) }
  IN << <<"no-error", e.error = "">>,
        <<"a-candidate-of-this-object-and-visit", \A i \in D : CandOf(e, e.rows[i]) # {}>>,
        <<"known-visit-and-object", Good = D>>,
        <<"requested-filter", \A i \in Good : Asked(e.rows[i].v)>>,
        <<"filter-of-its-visit", \A i \in Good : e.rows[i].f = tab.visits[e.rows[i].v].f>>,
        <<"data-of-its-visit", \A i \in Good : e.rows[i].vtok = tab.visits[e.rows[i].v].tok>>,
        <<"data-of-its-object", \A i \in Good : e.rows[i].otok = tab.objects[e.rows[i].o].tok>>,
        <<"data-of-its-candidate", \A i \in D : \E k \in CandOf(e, e.rows[i]) : e.rows[i].tok = e.cand[k].tok>>,
        <<"magnitude", \A i \in Good : Asked(e.rows[i].v) => \E k \in CandOf(e, e.rows[i]) :
              LET f == tab.visits[e.rows[i].v].f IN Near(e.rows[i].mag, HIn(tab.objects[e.rows[i].o], f, tab.main) + e.cand[k].shape[f])>>,
        <<"each-once", \A i, j \in D : i # j => <<e.rows[i].o, e.rows[i].v>> # <<e.rows[j].o, e.rows[j].v>> >>,
        <<"every-candidate-of-a-requested-visit", e.whole => \A k \in DOMAIN e.cand : Asked(e.cand[k].v) => \E i \in D : e.rows[i].o = e.cand[k].o /\ e.rows[i].v = e.cand[k].v>> >>
TraceInit == BaseInit /\ tab = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "tables" -> Advance({}) /\ tab' = e
                  [] e.ev = "rows" -> Advance(Failing(RowClauses(e))) /\ UNCHANGED tab
                  [] OTHER -> Advance({"unknown-event"}) /\ UNCHANGED tab
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, tab>>
=============================================================================
