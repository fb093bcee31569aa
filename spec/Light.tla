-------------------------------- MODULE Light --------------------------------
(* One source seen again and again, one circumstance changing at a time: the object, its distances, its phase angle, the filter, its motion and its direction, the exposure, the
   two seeings, the place in the field, the depth of the visit. What each circumstance may change is stated apart from the laws (Governs).
   Variants (contrast): "once": the distance from the Sun counts half; "mainphase": phase parameters are those of the main filter; "rate": only the motion along
   one axis trails; "seeing": the detection loss uses the geometric seeing; "psf": the uncertainty of the trailed source takes the detection loss; "deeper": vignetting adds
   depth; "flat": the place in the field is measured without the cosine of the declination.                                                                   *)
EXTENDS LightRules, FiniteSets, TLC, Json
CONSTANTS Variant, Depth, Fns
VARIABLES s, fn, last, was, n
vars == <<s, fn, last, was, n>>
Kinds == [x \in 1..3 |-> CASE x = 1 -> [H |-> 17250000, col |-> [r |-> 0, g |-> 480000], par |-> [r |-> <<150, 400>>, g |-> <<150, 400>>]]
                           [] x = 2 -> [H |-> 19000001, col |-> [r |-> 0, g |-> -125000], par |-> [r |-> <<20, 630>>, g |-> <<350, 80>>]]
                           [] x = 3 -> [H |-> 14000000, col |-> [r |-> 0, g |-> 1000000], par |-> [r |-> <<900, 50>>, g |-> <<0, 1000>>]]]
Start == [kind |-> 1, H |-> Kinds[1].H, col |-> Kinds[1].col, par |-> Kinds[1].par, d |-> 5, r |-> 12, al |-> 4, f |-> "r", k |-> 2, dir |-> 1, exp |-> 30, se |-> 750, sg |-> 600, off |-> 5000,
          pole |-> FALSE, depth |-> 23000000]
Init == s = Start /\ fn \in Fns /\ last = "" /\ was = s /\ n = 0
Choices == [kind |-> {1, 2, 3}, d |-> {-40, 5, 12, 30}, r |-> {-3, 5, 12, 40}, al |-> Angles, f |-> {"r", "g"}, k |-> {0, 2, 10}, dir |-> 1..5, exp |-> {15, 30, 60}, se |-> {500, 750, 1200}, sg |-> {500, 600, 1000},
            off |-> {0, 5000, 10050, 17900, 19530, 26000}, pole |-> {TRUE, FALSE}, depth |-> {22500000, 23000000}]
Becomes(x, v) == IF x = "kind" THEN [s EXCEPT !.kind = v, !.H = Kinds[v].H, !.col = Kinds[v].col, !.par = Kinds[v].par] ELSE [s EXCEPT ![x] = v]
Next == /\ n < Depth
        /\ \E x \in DOMAIN Choices : \E v \in Choices[x] : /\ s[x] # v
                                                          /\ s' = Becomes(x, v) /\ last' = x
        /\ was' = s /\ n' = n + 1 /\ UNCHANGED fn
Spec == Init /\ [][Next]_vars
(* ---- what is measured (in the variants: wrongly) ---- *)
\* motion: five directions of the same speed; the share along the first axis in fifths
Along(dir) == <<3, 5, -4, 0, -5>>[dir]
Moving(t) == IF Variant = "rate" THEN [t EXCEPT !.k = Abs((@ * Along(t.dir)) \div 5)] ELSE t
At(t) == IF Variant = "mainphase" THEN [t EXCEPT !.par = [r |-> t.par["r"], g |-> t.par["r"]]] ELSE t
Q(t) == LET m == At(t)
            far == IF Variant = "once" THEN 100000 * t.d + 50000 * t.r ELSE Far(t)
            det == Detect(IF Variant = "seeing" THEN [Moving(t) EXCEPT !.se = t.sg] ELSE Moving(t))
            tr == IF Variant = "psf" THEN det ELSE Trail(Moving(t))
            off == IF Variant = "flat" /\ t.pole THEN t.off * 2 ELSE t.off
            v == IF Variant = "deeper" THEN 2 * 623885 - Rays(off) ELSE Rays(off)
        IN [mag |-> HFilter(t) + far + Straight(fn, m), share |-> Share(fn, m.par[m.f], t.al), det |-> det, trail |-> tr, rays |-> v, field |-> t.depth]
(* ---- what may change what ---- *)
Governs == [kind |-> {"mag", "share"}, d |-> {"mag"}, r |-> {"mag"}, al |-> {"mag", "share"}, f |-> {"mag", "share"}, k |-> {"det", "trail"}, dir |-> {}, exp |-> {"det", "trail"},
            se |-> {"det"}, sg |-> {"trail"}, off |-> {"rays"}, pole |-> {}, depth |-> {"field"}]
TypeOK == s.kind \in 1..3 /\ n \in 0..Depth
OnlyWhatItGoverns == last # "" => LET a == Q(was)
                                      b == Q(s)
                                  IN \A q \in {"mag", "share", "det", "trail", "rays", "field"} : a[q] # b[q] => q \in Governs[last]
DistancesAlike == Q([s EXCEPT !.d = s.r, !.r = s.d]).mag = Q(s).mag
TenthPerStep == (last \in {"d", "r"}) => Q(s).mag - Q(was).mag = 100000 * (s[last] - was[last])
NothingLostAtZeroPhase == s.al = 0 => Abs(Q(s).share - 1000000) <= 3 /\ Q(s).mag = s.H + s.col[s.f] + 100000 * (s.d + s.r)
DimsWithPhase == last = "al" => (s.al > was.al => Q(s).share <= Q(was).share /\ Q(s).mag >= Q(was).mag)
OwnPhase == Q(s).share = Q([s EXCEPT !.par = [x \in {"r", "g"} |-> s.par[s.f]]]).share
NoTrailAtRest == s.k = 0 => Q(s).det = 1000000 /\ Q(s).trail = 1000000
TrailsMore == (last \in {"k", "exp"} /\ s[last] > was[last]) => Q(s).det >= Q(was).det /\ Q(s).trail >= Q(was).trail
SharperTrailsMore == /\ (last = "se" /\ s.se > was.se) => Q(s).det <= Q(was).det
                     /\ (last = "sg" /\ s.sg > was.sg) => Q(s).trail <= Q(was).trail
NeverDeeper == Q(s).rays <= 623885
OutwardDims == last = "off" => (s.off > was.off => Q(s).rays <= Q(was).rays)
\* the fainter against the limit, the noisier; a source at the limit has five times the noise's signal
NoisierWhenFainter == \A u \in {1000, 10000} : \A x \in {10, 500, 1000, 4000, 9000} : Noise2(x, u) < Noise2(x + u \div 10, u) /\ Noise2(x, u) <= Noise2(Dimmed(x, Trail(s)), u)
FiveSigmaAtTheLimit == LET q == ISqrt(Noise2(10000, 10000)) IN q \in 1990..2010
Emit == PrintT("SCN " \o ToJson([fn |-> fn, s |-> s]))
=============================================================================
