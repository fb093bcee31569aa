----------------------------- MODULE TraceCull -----------------------------
(* A run with culling next to the same run without.
   obj: one object in reach of a visit: perihelion, brightest possible magnitudes, depths of the visits, and whether the run left it out.
   run: error; a: ephemeris rows of the run with culling; b: of the run without, for the objects a has; da, db: detections of the two runs.  *)

EXTENDS TraceBase, CullRules
ObjClauses(e) == << <<"only-hopeless-objects-are-culled", e.culled => Hopeless(e.q, e.mag, e.depth, ToSet(e.req), e.tq, e.tm)>> >>
RunClauses(e) == << <<"no-error", e.error = "">>,
                    <<"kept-as-they-were", e.error = "" => e.a = e.b>>,
                    <<"same-detections", e.error = "" => e.da = e.db>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "obj" -> Advance(Failing(ObjClauses(e)))
                  [] e.ev = "run" -> Advance(Failing(RunClauses(e)))
                  [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
