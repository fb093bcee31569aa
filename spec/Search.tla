----------------------------- MODULE Search -----------------------------
(* The ephemeris generator's search: a triple of pickets (times with cached directions of every object), the sky pixels each object passes between them, and visits
   in any order of time.  The sky is a ring of pixels of W units; objects move uniformly, so that interpolation between pickets is exact; time in quarter pickets.
   Checked: after every visit the cached directions belong to the picket times, the visit lies within half a picket of the central one, the pixel map belongs to the
   triple, and exactly the objects within the circle (field R - B, buffer B) are reported.                                                                      *)
EXTENDS SearchRules, TLC, Json
CONSTANTS T, Ring, W, R, B, Speeds, Variant, Depth, Emit
VARIABLES obj, t0, tm, tp, dm, d0, dp, map, last, path
vars == <<obj, t0, tm, tp, dm, d0, dp, map, last, path>>
P == 4
Pos(t) == obj.p + obj.v * t
Norm(x) == x % (Ring * W)
Pixel(x) == Norm(x) \div W
Dist(x, y) == LET a == Norm(x - y) IN IF a <= Ring * W - a THEN a ELSE Ring * W - a
(* interpolation of the cached directions, at the sampled times *)
Interp(a, b, c, t, mid) == IF t <= mid THEN b + ((b - a) * (t - mid)) \div P ELSE b + ((c - b) * (t - mid)) \div P
Traversed(a, b, c, mid) == { Pixel(Interp(a, b, c, t, mid)) : t \in (mid - P)..(mid + P) }
Around(S) == { (x + k) % Ring : x \in S, k \in (IF Variant = "ownpixel" THEN {-1, 1} ELSE IF Variant = "noneighbour" THEN {0} ELSE {-1, 0, 1}) }
MapOf(a, b, c, mid) == Around(Traversed(a, b, c, mid))
Disc(c, s) == { Pixel(x) : x \in (c - s)..(c + s) }
None == [ t |-> 0, dist |-> 0, rep |-> FALSE, on |-> FALSE ]
Init == /\ obj \in { [ p |-> p, v |-> v ] : p \in 0..(W - 1), v \in Speeds }
        /\ t0 \in 8..9 /\ tm = t0 - P /\ tp = t0 + P
        /\ dm = Pos(tm) /\ d0 = Pos(t0) /\ dp = Pos(tp)
        /\ map = MapOf(dm, d0, dp, t0) /\ last = None /\ path = <<>>
(* the triple that serves a visit at t *)
Earlier(t) == IF Variant = "wrongshift" THEN t <= tm ELSE t < t0
Triple(t) == IF Near(t, t0, P) THEN <<tm, t0, tp, dm, d0, dp>>
             ELSE IF 2 * Abs(t - t0) <= 3 * P
                  THEN IF Earlier(t) THEN <<tm - P, tm, t0, Pos(tm - P), dm, d0>> ELSE <<t0, tp, tp + P, d0, dp, Pos(tp + P)>>
                  ELSE LET n == (2 * (t - t0) + P) \div (2 * P)  c == t0 + n * P IN
                       IF Variant = "halfjump" THEN <<tm, c, c + P, dm, Pos(c), Pos(c + P)>> ELSE <<c - P, c, c + P, Pos(c - P), Pos(c), Pos(c + P)>>
Offsets == { -R - 1, -R, 0, R - B + 1, R, R + 1 }
Visit(t, off) ==
  LET q == Triple(t)
      c == Norm(Pos(t) + off)
      m == IF Variant = "stale" /\ Near(t, t0, P) = FALSE THEN map ELSE MapOf(q[4], q[5], q[6], q[2])
      cand == Disc(c, IF Variant = "fieldonly" THEN R - B ELSE R) \cap m # {} IN
  /\ tm' = q[1] /\ t0' = q[2] /\ tp' = q[3] /\ dm' = q[4] /\ d0' = q[5] /\ dp' = q[6] /\ map' = m
  /\ last' = [ t |-> t, dist |-> Dist(Pos(t), c), rep |-> cand /\ Dist(Pos(t), c) <= R, on |-> TRUE ]
Next == \E t \in 0..T, off \in Offsets : Visit(t, off) /\ UNCHANGED <<obj, path>>
Spec == Init /\ [][Next]_vars
Cached == dm = Pos(tm) /\ d0 = Pos(t0) /\ dp = Pos(tp) /\ tm = t0 - P /\ tp = t0 + P
Within == last.on => Near(last.t, t0, P)
Mapped == map = MapOf(dm, d0, dp, t0)
Reported == last.on => Owed(IF last.dist <= R THEN "in" ELSE "out", IF last.rep THEN 1 ELSE 0)
(* scenarios: every pattern of steps in time (quarter pickets) between Depth + 1 visits *)
Steps == { -11, -7, -6, -5, -3, -2, -1, 0, 1, 2, 3, 5, 6, 7, 11 }
GenInit == /\ path = <<>> /\ obj = [ p |-> 0, v |-> 0 ] /\ t0 = 0 /\ tm = 0 /\ tp = 0 /\ dm = 0 /\ d0 = 0 /\ dp = 0 /\ map = {} /\ last = None
GenNext == Len(path) < Depth /\ \E s \in Steps : path' = Append(path, s) /\ UNCHANGED <<obj, t0, tm, tp, dm, d0, dp, map, last>>
GenSpec == GenInit /\ [][GenNext]_vars
Tell == (Emit /\ Len(path) = Depth) => PrintT("SCN " \o ToJson([ p |-> path ]))
=============================================================================
