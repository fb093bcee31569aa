---------------------------- MODULE TraceInputs ----------------------------
(* Runs on rendered inputs.  event run: in (see InputRules), refused (ended with an error), completed (log), rows (objects with detections in the
   files left behind), files (any output file left with rows)                                                               *)
EXTENDS InputRules, TraceBase
Clauses(e) == <<
  <<"consistent-is-accepted", Consistent(e.in) => ~e.refused /\ e.completed>>,
  <<"consistent-reports-every-object", Consistent(e.in) => Els(e.rows) = Els(e.in.orb)>>,
  <<"inconsistent-is-refused", ~Consistent(e.in) => e.refused>>,
  <<"refused-is-never-completed", ~Consistent(e.in) => ~e.completed>>,
  <<"refused-parameters-leave-no-detections", ~Static(e.in) => e.rows = <<>> >>,
  <<"refusal-is-announced", (~Static(e.in) /\ e.refused) => e.clean>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN IF e.ev = "run" THEN Advance(Failing(Clauses(e))) ELSE Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
