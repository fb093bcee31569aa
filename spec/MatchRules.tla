----------------------------- MODULE MatchRules -----------------------------
(* Joining candidates to their visit and their object.  visits: f (filter); objects: H, colour (by filter), par (by filter): names of phase parameters. *)
EXTENDS Integers, Sequences, FiniteSets
Wanted(visits, v, req) == v \in DOMAIN visits /\ visits[v].f \in req
\* absolute magnitude in filter f, main filter m
HIn(o, f, m) == o.H + (IF f = m THEN 0 ELSE o.colour[f])
=============================================================================
