----------------------------- MODULE TraceLink -----------------------------
(* Validates recorded linking verdicts against Linking.tla.
   event link : p, o, sep (the object's detections) and what the code answered: linked, dates (set of dates given to
                its rows), nrows (rows reported for it).
   event rows : a linking step over a whole table; see the clauses.                                          *)
EXTENDS Linking, TraceBase

LinkClauses(e) ==
  LET TN == TrackletNights(e.o, e.sep, e.p)
      L  == IsLinked(TN, e.p)
  IN <<
    <<"linked-iff-enough-tracklets-in-window", e.linked = L>>,
    <<"date-is-last-night-of-earliest-window", (L /\ e.linked) => Range(e.dates) = {LinkDate(TN, e.p)}>>,
    <<"no-date-when-unlinked", ~e.linked => e.dates = <<>> >> >>

\* rows in, rows out: each [id, obj, val] (val: interned content of every other column), out rows with flag and date
Verdict(e, o) == e.solo[o]
Alive(e) == { i \in DOMAIN e.inp : ~e.drop \/ Verdict(e, e.inp[i].obj).linked }
RowsClauses(e) ==
  LET inset == { e.inp[i] : i \in Alive(e) }
      outset == { [id |-> e.out[i].id, obj |-> e.out[i].obj, val |-> e.out[i].val] : i \in DOMAIN e.out }
      ids == { r.id : r \in inset }
      oids == { e.out[i].id : i \in DOMAIN e.out }
  IN <<
    <<"no-error", e.error = "">>,
    <<"every-row-of-a-kept-object-reported", ids \subseteq oids>>,
    <<"no-row-of-another-object-reported", oids \subseteq ids>>,
    <<"each-row-once", Len(e.out) = Cardinality(oids)>>,
    <<"other-values-unchanged", \A r \in outset : r.id \in ids => r \in inset>>,
    <<"flag-is-own-objects-verdict", \A i \in DOMAIN e.out : e.out[i].obj \in DOMAIN e.solo => (e.out[i].linked <=> Verdict(e, e.out[i].obj).linked)>>,
    <<"date-is-own-objects-date", \A i \in DOMAIN e.out : e.out[i].obj \in DOMAIN e.solo => e.out[i].date = Verdict(e, e.out[i].obj).date>> >>

\* statistics of thinning by efficiency p (per mille): k of n independent opportunities succeeded; five sigma
Sq(x) == x * x
RateClauses(e) ==
  LET dev == IF e.k * 1000 > e.n * e.p THEN e.k * 1000 - e.n * e.p ELSE e.n * e.p - e.k * 1000
      d == dev \div 1000
  IN << <<"none-at-zero", e.p = 0 => e.k = 0>>,
        <<"all-at-one", e.p = 1000 => e.k = e.n>>,
        <<"rate-as-stated", (e.p # 0 /\ e.p # 1000) => Sq(d) <= (25 * e.n * ((e.p * (1000 - e.p)) \div 1000)) \div 1000 + 25>> >>

\* each-independently: pairs of neighbouring opportunities must not move together
TraceInit == BaseInit
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     CASE e.ev = "link" -> Advance(Failing(LinkClauses(e)))
       [] e.ev = "rows" -> Advance(Failing(RowsClauses(e)))
       [] e.ev = "rate" -> Advance(Failing(RateClauses(e)))
       [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
