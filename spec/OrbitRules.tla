----------------------------- MODULE OrbitRules -----------------------------
(* What an orbit row means.  Six formats: heliocentric COM, KEP, CART and their barycentric equivalents; every row has an epoch of its own, in MJD or JD. *)
EXTENDS Integers, Sequences, FiniteSets
Formats == {"COM", "KEP", "CART", "BCOM", "BKEP", "BCART"}
Barycentric(f) == f \in {"BCOM", "BKEP", "BCART"}
Elements(f) == f \notin {"CART", "BCART"}
(* eccentricity class: 0 bound, 1 parabolic, 2 hyperbolic, -1 negative; size class: -1 negative perihelion distance or semi-major axis *)
Physical(f, ecc, size) == CASE f \in {"KEP", "BKEP"} -> ecc = 0 /\ size > 0
                            [] f \in {"COM", "BCOM"} -> ecc >= 0 /\ size > 0
                            [] OTHER -> TRUE
(* the epoch in MJD, whichever way it is given; J: the difference *)
Mjd(ep, J) == IF ep >= J THEN ep - J ELSE ep
=============================================================================
