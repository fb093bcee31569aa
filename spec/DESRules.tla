------------------------------ MODULE DESRules ------------------------------
(* The DES selection: distance range (whole objects), motion range (single detections), discovery (whole objects).
   rows : sequence of [id, obj, t, r, m]  (t: time; r, m: heliocentric distance and on-sky rate, as ranks)
   C    : [distOn, rlo, rhi, motOn, mlo, mhi, disc, far, day, arc, many, few, near, wide]                       *)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt

RowsOf(rows, S, o) == { i \in S : rows[i].obj = o }
ObjsOf(rows, S) == { rows[i].obj : i \in S }

InRange(x, lo, hi) == lo < x /\ x < hi

Distance(rows, S, C) ==
  IF ~C.distOn THEN S
  ELSE { i \in S : \E j \in RowsOf(rows, S, rows[i].obj) : InRange(rows[j].r, C.rlo, C.rhi) }

Motion(rows, S, C) == IF ~C.motOn THEN S ELSE { i \in S : InRange(rows[i].m, C.mlo, C.mhi) }

-----------------------------------------------------------------------------
\* discovery, from the set T of detection times of one object
NightOf(t, C) == t \div C.day
NightsOf(T, C) == { NightOf(t, C) : t \in T }
First(T, n, C) == Min({ t \in T : NightOf(t, C) = n })

ArcCut(T, C) ==
  LET N == NightsOf(T, C)
      noFirst == { t \in T : NightOf(t, C) # Min(N) }
      noLast  == { t \in T : NightOf(t, C) # Max(N) }
      arc1 == IF noFirst = {} THEN 0 ELSE Max(T) - Min(noFirst)
      arc2 == IF noLast = {} THEN 0 ELSE Max(noLast) - Min(T)
  IN IF arc1 < arc2 THEN arc1 ELSE arc2

Successive(N, a, b) == a < b /\ ~ \E n \in N : a < n /\ n < b

Triplet(T, w, C) ==
  LET N == NightsOf(T, C)
  IN \E a, b, c \in N : /\ Successive(N, a, b) /\ Successive(N, b, c)
                        /\ First(T, b, C) - First(T, a, C) < w
                        /\ First(T, c, C) - First(T, b, C) < w

Window(near50, C) == IF near50 THEN C.near ELSE C.wide

Discovered(T, near50, C) ==
  LET n == Cardinality(NightsOf(T, C))
  IN n >= C.many \/ (n >= C.few /\ ArcCut(T, C) > C.arc /\ Triplet(T, Window(near50, C), C))

Discovery(rows, S, C) ==
  IF ~C.disc THEN S
  ELSE LET ok == { o \in ObjsOf(rows, S) :
                     LET M == RowsOf(rows, S, o)
                     IN Discovered({ rows[i].t : i \in M }, \E i \in M : rows[i].r < C.far, C) }
       IN { i \in S : rows[i].obj \in ok }

Select(rows, C) == Discovery(rows, Motion(rows, Distance(rows, DOMAIN rows, C), C), C)
=============================================================================
