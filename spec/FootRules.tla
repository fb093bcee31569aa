----------------------------- MODULE FootRules -----------------------------
(* Detectors in the focal plane: each is the convex hull of its corners, whatever order they are listed in.  Integer coordinates. *)
EXTENDS Integers, Sequences, FiniteSets
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Edges(S) == { e \in S \X S : e[1] # e[2] /\ \A c \in S : Cross(e[1], e[2], c) >= 0 }
(* integer square root *)
RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Bisect(n, m, hi) ELSE Bisect(n, lo, m)
ISqrt(n) == Bisect(n, 0, 46341)
Len2(e) == (e[2][1] - e[1][1]) * (e[2][1] - e[1][1]) + (e[2][2] - e[1][2]) * (e[2][2] - e[1][2])
(* further than t inside every edge *)
Deep(E, p, t) == \A e \in E : Cross(e[1], e[2], p) > t * ISqrt(Len2(e))
Inside(S, p) == \A e \in Edges(S) : Cross(e[1], e[2], p) > 0
On(S, p) == \A e \in Edges(S) : Cross(e[1], e[2], p) >= 0
(* a visit's own view of the sky: shift to its centre, then turn *)
Turn(p, k) == CASE k = 0 -> p [] k = 1 -> <<-p[2], p[1]>> [] k = 2 -> <<-p[1], -p[2]>> [] OTHER -> <<p[2], -p[1]>>
View(v, p) == Turn(<<p[1] - v.c[1], p[2] - v.c[2]>>, v.k)
Keeps(layout, q, t) == { d \in DOMAIN layout : LET E == Edges(layout[d].corners) IN (IF t = 0 THEN \A e \in E : Cross(e[1], e[2], q) > 0 ELSE \A e \in E : Cross(e[1], e[2], q) * Cross(e[1], e[2], q) > t * t * Len2(e) /\ Cross(e[1], e[2], q) > 0) }
=============================================================================
