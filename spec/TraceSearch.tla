----------------------------- MODULE TraceSearch -----------------------------
(* What the real ephemeris generator reported.  One event per visit of a run:
   error; pairs: zone of an object near the visit and n, the number of rows it got; others: rows of objects far away or unknown; off: names of quantities in the
   visit's rows that are not the object's own.  same: a pair of runs on the same objects and visits, by other means (order of visits, picket length, pixel order,
   sub-intervals, chunk size): a, b how many rows each of the certain pairs got.                                                                              *)
EXTENDS TraceBase, SearchRules
VisitClauses(e) ==
  << <<"no-error", e.error = "">>,
     <<"inside-missed", e.error = "" => \A i \in DOMAIN e.pairs : e.pairs[i].zone = "in" => e.pairs[i].n >= 1>>,
     <<"outside-reported", e.error = "" => \A i \in DOMAIN e.pairs : e.pairs[i].zone = "out" => e.pairs[i].n = 0>>,
     <<"once", e.error = "" => \A i \in DOMAIN e.pairs : e.pairs[i].n <= 1>>,
     <<"owed", e.error = "" => \A i \in DOMAIN e.pairs : Owed(e.pairs[i].zone, e.pairs[i].n)>>,
     <<"no-others", e.others = 0>>,
     <<"own-quantities", e.off = <<>> >> >>
SameClauses(e) == << <<"same-rows-by-other-means", e.a = e.b>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "visit" -> Advance(Failing(VisitClauses(e)))
                  [] e.ev = "same" -> Advance(Failing(SameClauses(e)))
                  [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
