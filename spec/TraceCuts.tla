----------------------------- MODULE TraceCuts -----------------------------
(* Runs with and without cuts.  event cand: rows (the candidates, as the same run without cuts reports them).
   event run: c (configuration), p (probability of each candidate, empty when the efficiency is off), kept (candidates reported, by number; 0: a row that is no
   candidate or whose values changed), draws ("none": p settles every candidate; "group": candidates share unknown draws with the other runs
   of the group), error.  Draws of a group are unknown but fixed: they lie above every probability refused and at or below every one kept.        *)
EXTENDS TraceBase, CutRules
VARIABLES rows, lo, hi
One == 1000000000
Fresh(n) == [ i \in 1..n |-> 0 ]
WithP(r, e, i) == [ snr |-> r.snr, mag |-> r.mag, psf |-> r.psf, f |-> r.f, sep |-> r.sep, edge |-> r.edge, p |-> IF e.p = <<>> THEN 0 ELSE e.p[i] ]
NoFade == { "deflt", "circ", "snr", "mag", "bright" }
\* within every limit apart from the efficiency
Limits(e, i) == \A s \in NoFade : Passes(s, WithP(rows[i], e, i), e.c, 0)
Blur(e, i) == e.c.circ # Off /\ LET d == rows[i].sep - e.c.circ IN -2 <= d /\ d <= 2   \* on the circle, as far as can be told
KeptSet(e) == { e.kept[j] : j \in DOMAIN e.kept }
Certain(e, i) == (~e.c.fade) \/ e.p[i] >= One     \* the efficiency keeps it for sure
Hopeless(e, i) == e.c.fade /\ e.p[i] <= 0
RunClauses(e) ==
  LET K == KeptSet(e)
  IN << <<"no-error", e.error = "">>,
        <<"rows-are-candidates", 0 \notin K>>,
        <<"each-once", \A a, b \in DOMAIN e.kept : a # b => e.kept[a] # e.kept[b]>>,
        <<"kept-only-within-limits", \A i \in K \ {0} : Limits(e, i) \/ Blur(e, i)>>,
        <<"nothing-else-removed", \A i \in DOMAIN rows : (Limits(e, i) /\ ~Blur(e, i) /\ Certain(e, i)) => i \in K>>,
        <<"efficiency-zero-keeps-none", \A i \in K \ {0} : ~Hopeless(e, i)>>,
        <<"one-draw-explains-all-runs", e.draws = "group" => \A i \in DOMAIN rows : (Limits(e, i) /\ ~Blur(e, i)) =>
             IF i \in K THEN e.p[i] + 2 >= lo[i] ELSE e.p[i] <= hi[i] + 2 >> >>
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
TraceInit == BaseInit /\ rows = <<>> /\ lo = <<>> /\ hi = <<>>
DoCand(e) == /\ Advance({})
             /\ rows' = e.rows
             /\ lo' = [ i \in DOMAIN e.rows |-> 0 ]
             /\ hi' = [ i \in DOMAIN e.rows |-> One + 1 ]
DoRun(e) == /\ Advance(Failing(RunClauses(e)))
            /\ UNCHANGED rows
            /\ IF e.draws = "group"
               THEN /\ lo' = [ i \in DOMAIN rows |-> IF Limits(e, i) /\ ~Blur(e, i) /\ i \notin KeptSet(e) THEN MaxI(lo[i], e.p[i]) ELSE lo[i] ]
                    /\ hi' = [ i \in DOMAIN rows |-> IF i \in KeptSet(e) THEN MinI(hi[i], e.p[i]) ELSE hi[i] ]
               ELSE UNCHANGED <<lo, hi>>
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "cand" -> DoCand(e)
                  [] e.ev = "run" -> DoRun(e)
                  [] OTHER -> Advance({"unknown-event"}) /\ UNCHANGED <<rows, lo, hi>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, rows, lo, hi>>
=============================================================================
