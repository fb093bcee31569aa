---------------------------- MODULE TraceCombine ----------------------------
(* event combine: dbs (rows, chosen), got (rows of the result table; 0: a row of no database), tables: each [want, got] (rows of the input tables), refused,
   mustRefuse.  large: rows and distinct rows found of so many wanted, likewise input rows.                                                                                                                   *)
EXTENDS CombineRules, TraceBase
Clauses(e) == <<
  <<"combines", ~e.mustRefuse => ~e.refused>>,
  <<"no-results-is-refused", e.mustRefuse => e.refused>>,
  <<"exactly-the-result-rows", ~e.mustRefuse => SameBag(e.got, Wanted(e.dbs))>>,
  <<"exactly-the-input-rows", ~e.mustRefuse => \A i \in DOMAIN e.tables : SameBag(e.tables[i].got, e.tables[i].want)>>,
  <<"inputs-untouched", e.untouched>> >>
LargeClauses(e) == << <<"combines", ~e.refused>>, <<"every-row-once", e.rows = e.want /\ e.distinct = e.want /\ e.inrows = e.inwant>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN IF e.ev = "combine" THEN Advance(Failing(Clauses(e))) ELSE IF e.ev = "large" THEN Advance(Failing(LargeClauses(e))) ELSE Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
