----------------------------- MODULE Cull -----------------------------
(* A run with culling: chunks of objects pass the culling, what is kept gets candidates at every visit in reach, and a candidate is detected when its magnitude,
   at most as bright as the object can be, is within the reach of the visit's depth (detections fainter than the depth by noise, up to the margin).
   Checked: nothing detectable is culled; kept objects keep their order; an object with a small perihelion is never culled.
   Units: half magnitudes (Margin 4).                                                                                                                     *)
EXTENDS CullRules, TLC, Json
CONSTANTS N, Variant, Emit
VARIABLES obj, visits, req, chunk, left, kept, seen
vars == <<obj, visits, req, chunk, left, kept, seen>>
F == {"g", "r"}
Mags == {2, 7, 8, 12}   \* around depth 4 (or 2) + 4
M4 == 4
Objs == [ q : {1, 2, 3}, mag : [ F -> Mags ] ]
VisitSets == { <<[ f |-> "r", d |-> 2 ], [ f |-> "r", d |-> 4 ]>>, <<[ f |-> "r", d |-> 4 ], [ f |-> "g", d |-> 2 ]>>, <<[ f |-> "g", d |-> 4 ], [ f |-> "g", d |-> 3 ]>> }
Vs == { visits[i] : i \in DOMAIN visits }
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
DepthsOf(f) == { v.d : v \in { w \in Vs : w.f = f } }
Faint(o, f) == IF DepthsOf(f) = {} THEN Variant # "novisit" \/ o.mag[f] > M4
               ELSE o.mag[f] > (IF Variant = "shallow" THEN Min(DepthsOf(f)) ELSE Max(DepthsOf(f))) + (IF Variant = "nomargin" THEN 0 ELSE M4)
Culled(o) == /\ IF Variant = "anyq" THEN TRUE ELSE o.q >= 2
             /\ IF Variant = "some" THEN \E f \in req : Faint(o, f) ELSE IF Variant = "main" THEN Faint(o, "r") ELSE \A f \in req : Faint(o, f)
(* how bright the object gets at most at a visit: below 2 au it comes nearer than the estimate *)
Brightest(o, f) == IF o.q >= 2 THEN o.mag[f] ELSE o.mag[f] - 6
Init == /\ obj \in [ 1..N -> Objs ] /\ visits \in VisitSets /\ req \in {{"r"}, {"g", "r"}} /\ chunk \in 1..N
        /\ left = [ i \in 1..N |-> i ] /\ kept = <<>> /\ seen = {}
Take == IF Len(left) < chunk THEN Len(left) ELSE chunk
Chunk == /\ left # <<>>
         /\ LET now == SubSeq(left, 1, Take)
                k == SelectSeq(now, LAMBDA i : ~Culled(obj[i])) IN
            /\ kept' = kept \o (IF Variant = "reverse" /\ Len(k) > 1 THEN [ i \in 1..Len(k) |-> k[Len(k) + 1 - i] ] ELSE k)
            /\ seen' = seen \cup { i \in { k[j] : j \in DOMAIN k } : \E v \in Vs : v.f \in req /\ Brightest(obj[i], v.f) <= v.d + M4 }
            /\ left' = SubSeq(left, Take + 1, Len(left))
         /\ UNCHANGED <<obj, visits, req, chunk>>
Spec == Init /\ [][Chunk]_vars
Detectable(i) == \E v \in Vs : v.f \in req /\ Brightest(obj[i], v.f) <= v.d + M4
Done(i) == \A j \in DOMAIN left : left[j] # i
Safe == \A i \in 1..N : Done(i) /\ Detectable(i) => i \in seen
Order == \A j, k \in DOMAIN kept : j < k => kept[j] < kept[k]
Near == \A i \in 1..N : Done(i) /\ obj[i].q < 2 => \E j \in DOMAIN kept : kept[j] = i
Tell == (Emit /\ left # <<>> /\ chunk = 1) => PrintT("SCN " \o ToJson([ q |-> obj[1].q, mag |-> obj[1].mag, visits |-> visits, req |-> req ]))
=============================================================================
