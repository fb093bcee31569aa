----------------------------- MODULE TraceOrbits -----------------------------
(* Runs on orbits of known motions, in one of the formats.  run: error; rows: per object near a visit its zone ("in": owed a row) and n, how many it got; off: quantities
   that are not the object's own; slack is inside the harness.  orbit: one row with eccentricity class ecc and size class size; error; n: rows it got.                    *)
EXTENDS TraceBase, OrbitRules
RunClauses(e) ==
  << <<"no-error", e.error = "">>,
     <<"same-motion-same-rows", e.error = "" => \A i \in DOMAIN e.rows : CASE e.rows[i].zone = "in" -> e.rows[i].n = 1 [] e.rows[i].zone = "out" -> e.rows[i].n = 0 [] OTHER -> e.rows[i].n \in {0, 1}>>,
     <<"same-motion-same-quantities", e.off = <<>> >> >>
OrbitClauses(e) == << <<"unphysical-orbit-refused", ~Physical(e.fmt, e.ecc, e.size) => e.error # "" /\ e.n = 0>>,
                      <<"physical-orbit-taken", Physical(e.fmt, e.ecc, e.size) => e.error = "">> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "run" -> Advance(Failing(RunClauses(e)))
                  [] e.ev = "orbit" -> Advance(Failing(OrbitClauses(e)))
                  [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
