------------------------------ MODULE TraceDES ------------------------------
(* Validates recorded DES selections against DESRules. event des: rows, c (configuration), out (row ids in output order),
   same (do the reported rows carry unchanged values?), error                                                       *)
EXTENDS DESRules, TraceBase
Full(e) == Select(e.rows, e.c)
Clauses(e) ==
  LET want == { e.rows[i].id : i \in Full(e) }
      got  == Range(e.out)
      tOf(id) == e.rows[CHOOSE i \in DOMAIN e.rows : e.rows[i].id = id].t
      known == \A k \in DOMAIN e.out : \E i \in DOMAIN e.rows : e.rows[i].id = e.out[k]
  IN << <<"no-error", e.error = "">>,
        <<"keeps-every-selected-detection", want \subseteq got>>,
        <<"keeps-only-selected-detections", got \subseteq want>>,
        <<"each-once", Len(e.out) = Cardinality(got)>>,
        <<"time-order", (e.c.disc /\ e.ordered /\ known) => \A k \in 1 .. Len(e.out) - 1 : tOf(e.out[k]) <= tOf(e.out[k + 1])>>,
        <<"values-unchanged", e.same>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ Advance(Failing(Clauses(Trace[l])))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
