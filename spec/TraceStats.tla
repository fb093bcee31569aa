----------------------------- MODULE TraceStats -----------------------------
(* Statistics files.  event stats: rows (reported detections), st (rows of the file: o f n lo hi med plo phi linked date, in the unit of the rows,
   linked "-" when there is no such column), mode: linking "off", "keep" or "drop", error.  Values are known to one unit.          *)
EXTENDS TraceBase, StatRules
Near(a, b) == a - b <= 1 /\ b - a <= 1
Counted(e) == { i \in DOMAIN e.st : e.st[i].n > 0 }
Pick(e, k) == { i \in Counted(e) : e.st[i].o = k[1] /\ e.st[i].f = k[2] }
ForAll(e, Q(_, _)) == \A k \in Keys(e.rows) : \A i \in Pick(e, k) : Q(e.st[i], Summary(e.rows, k[1], k[2]))
Clauses(e) ==
  LET K == Keys(e.rows)
      QN(s, w) == s.n = w.n
      QLo(s, w) == Near(s.lo, w.lo)
      QHi(s, w) == Near(s.hi, w.hi)
      QMed(s, w) == LET d == 2 * s.med - w.med2 IN -3 <= d /\ d <= 3
      QP(s, w) == Near(s.plo, w.plo) /\ Near(s.phi, w.phi)
      QL(s, w) == s.linked = (IF w.linked THEN "yes" ELSE "no")
      QD(s, w) == { s.date } = w.dates
  IN << <<"no-error", e.error = "">>,
        <<"a-row-for-each-object-and-filter", \A k \in K : Pick(e, k) # {}>>,
        <<"only-one-row", \A k \in K : Cardinality(Pick(e, k)) <= 1>>,
        <<"no-row-without-detections", \A i \in Counted(e) : <<e.st[i].o, e.st[i].f>> \in K>>,
        <<"number", ForAll(e, QN)>>, <<"minimum", ForAll(e, QLo)>>, <<"maximum", ForAll(e, QHi)>>, <<"median", ForAll(e, QMed)>>, <<"phases", ForAll(e, QP)>>,
        <<"linked", e.mode = "keep" => ForAll(e, QL)>>, <<"date-linked", e.mode # "off" => ForAll(e, QD)>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN IF e.ev = "stats" THEN Advance(Failing(Clauses(e))) ELSE Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
