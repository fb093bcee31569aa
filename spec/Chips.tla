----------------------------- MODULE Chips -----------------------------
(* Sources are taken visit by visit, in any order; the outlines recorded for the visit are brought, with the sources, into a frame around the field centre,
   however the outlines were stored across right ascension zero.  Checked: a source is kept exactly when an outline of its own visit covers it, with the name
   and limit of that outline.                                                                                                  *)
EXTENDS ChipRules, TLC
CONSTANT Variant
VARIABLES chips, how, centre, src, todo, kept, pc
vars == <<chips, how, centre, src, todo, kept, pc>>
V == {1, 2}
Lay(c) == << [ id |-> 10 + c, start |-> c - 5, len |-> 4, lim |-> 1 ], [ id |-> 20 + c, start |-> c + 1, len |-> 2, lim |-> 2 ] >>
Init == /\ centre \in [ V -> { 0, 1, 5, 9, 11 } ]
        /\ chips = [ v \in V |-> IF v = 2 /\ centre[2] = 5 THEN <<>> ELSE Lay(centre[v]) ]
        /\ how \in [ V -> { "on", "back", "each" } ]
        /\ src \in UNION { [ 1..n -> [ v : V, x : { k \in 0..M - 1 : k % 2 = 0 } ] ] : n \in 0..2 }
        /\ todo = V /\ kept = <<>> /\ pc = "go"
Near(v) == { i \in DOMAIN chips[v] : Variant # "pooled" \/ \A j \in DOMAIN chips[v] : LET d(k) == LET g == (src[1].x - chips[v][k].start) % M IN IF g > M \div 2 THEN M - g ELSE g IN d(i) <= d(j) }
On(v, i, x) == LET s == Stored(chips[v][i], how[v])
                   ctr == centre[IF Variant = "firstcentre" THEN src[1].v ELSE v]
                   a == IF Variant = "nowrap" THEN s.a ELSE Rel(s.a, ctr)
                   b == IF Variant = "nowrap" THEN s.b ELSE Rel(s.b, ctr)
                   y == IF Variant = "nowrap" THEN x ELSE Rel(x, ctr)
               IN i \in Near(v) /\ a < y /\ y < b
Take(v) == /\ v \in todo /\ todo' = todo \ {v}
           /\ kept' = kept \o SelectSeq([ k \in DOMAIN src |-> LET c == { i \in DOMAIN chips[v] : src[k].v = v /\ On(v, i, src[k].x) } IN
                                            IF c = {} THEN <<k, 0, 0>> ELSE LET i == CHOOSE i \in c : TRUE IN <<k, chips[v][i].id, chips[v][i].lim>> ], LAMBDA r : r[2] # 0)
           /\ pc' = IF todo' = {} THEN "end" ELSE pc
           /\ UNCHANGED <<chips, how, centre, src>>
Next == pc = "go" /\ \E v \in V : Take(v)
Spec == Init /\ [][Next]_vars
Exactly == pc = "end" => { kept[k][1] : k \in DOMAIN kept } = { i \in DOMAIN src : Covers(chips[src[i].v], src[i].x) # {} }
Named == \A k \in DOMAIN kept : LET s == src[kept[k][1]] IN \E i \in Covers(chips[s.v], s.x) : kept[k][2] = chips[s.v][i].id /\ kept[k][3] = chips[s.v][i].lim
Once == \A j, k \in DOMAIN kept : j # k => kept[j][1] # kept[k][1]
=============================================================================
