----------------------------- MODULE SearchRules -----------------------------
(* What the ephemeris generator owes one object at one visit.  zone: "in" - inside the search circle (field of view plus buffer) by more than the interpolation
   between pickets can be off; "out" - outside it by more than rounding; "may" - neither.                                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Owed(zone, n) == CASE zone = "in" -> n = 1 [] zone = "out" -> n = 0 [] OTHER -> n \in {0, 1}
Abs(x) == IF x < 0 THEN -x ELSE x
(* the picket triple around a time t, P apart: centre the nearest one *)
Near(t, t0, P) == 2 * Abs(t - t0) <= P
=============================================================================
