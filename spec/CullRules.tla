----------------------------- MODULE CullRules -----------------------------
(* Which objects may be left out of the ephemeris generation.  q: perihelion (0.001 au); mag[f]: brightest possible apparent magnitude (0.01 mag) in filter f,
   models included; depth[f]: deepest visit in f, for filters with visits.  Tq, Tm: what the estimates may be off by (barycentric elements).              *)
EXTENDS Integers, Sequences, FiniteSets
Margin == 200
Hopeless(q, mag, depth, req, Tq, Tm) == /\ q >= 2000 - Tq
                                        /\ \A f \in req : f \in DOMAIN depth => mag[f] > depth[f] + Margin - Tm
=============================================================================
