----------------------------- MODULE Foot -----------------------------
(* A chunk of sources, each with its own visit, is laid on a detector layout, detector by detector in the order of the layout file.  Checked: a source is kept
   once exactly when some detector holds it away from its border, seen from its own visit, under the name of such a detector; the order of sources,
   detectors and corners leaves no mark.  Lemma: the areas spanned by a point and the edges add up to the detector's area exactly for points on it. *)
EXTENDS FootRules, TLC
CONSTANTS Variant, N
VARIABLES layout, thresh, visits, src, order, d, rows, pc
vars == <<layout, thresh, visits, src, order, d, rows, pc>>
Sq(x, y, w) == { <<x, y>>, <<x + w, y>>, <<x + w, y + w>>, <<x, y + w>> }
Shapes == { Sq(-4, -4, 4), Sq(1, 1, 3), Sq(-1, -1, 4), { <<-4, 1>>, <<-1, 1>>, <<-4, 4>> }, { <<2, -4>>, <<4, -2>>, <<2, 0>>, <<0, -2>> } }
Grid == { <<-3, -2>>, <<0, 0>>, <<2, 2>>, <<-3, 2>>, <<2, -3>>, <<1, 1>> }
Init == /\ \E a, b \in Shapes : layout = << [ id |-> 7, corners |-> a ], [ id |-> 3, corners |-> b ] >>
        /\ thresh \in 0..1
        /\ visits = << [ c |-> <<0, 0>>, k |-> 0 ], [ c |-> <<1, -1>>, k |-> 1 ], [ c |-> <<0, 1>>, k |-> 2 ] >>
        /\ src \in UNION { [ 1..n -> Grid \X {1, 2, 3} ] : n \in 0..N }
        /\ order \in { <<1, 2>>, <<2, 1>> }
        /\ d = 1 /\ rows = <<>> /\ pc = "go"
Seen(i) == LET v == IF Variant = "firstvisit" THEN src[1][2] ELSE src[i][2] IN View(visits[v], src[i][1])
Holds(j, i) == j \in Keeps(layout, Seen(i), IF Variant = "noedge" THEN 0 ELSE thresh)
Label(j) == IF Variant = "position" THEN d - 1 ELSE layout[j].id
RECURSIVE Add(_, _, _)
Add(r, i, j) == IF i > Len(src) THEN r
                ELSE IF Holds(j, i) /\ (Variant = "twice" \/ \A k \in DOMAIN r : r[k][1] # i) THEN Add(Append(r, <<i, Label(j)>>), i + 1, j) ELSE Add(r, i + 1, j)
Step == /\ pc = "go"
        /\ IF d > Len(order) THEN pc' = "end" /\ UNCHANGED <<d, rows>>
           ELSE rows' = Add(rows, 1, order[d]) /\ d' = d + 1 /\ pc' = pc
        /\ UNCHANGED <<layout, thresh, visits, src, order>>
Spec == Init /\ [][Step]_vars
Want(i) == Keeps(layout, View(visits[src[i][2]], src[i][1]), thresh)
Exactly == pc = "end" => { rows[k][1] : k \in DOMAIN rows } = { i \in DOMAIN src : Want(i) # {} }
Once == \A j, k \in DOMAIN rows : j # k => rows[j][1] # rows[k][1]
Named == \A k \in DOMAIN rows : \E j \in Want(rows[k][1]) : rows[k][2] = layout[j].id
Abs(x) == IF x < 0 THEN -x ELSE x
Q == << <<-2, -1>>, <<2, -2>>, <<3, 1>>, <<-1, 2>> >>
R == << <<0, 0>>, <<3, 0>>, <<3, 3>>, <<0, 3>> >>
AreaSum(P, p) == LET n == Len(P) S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + Abs(Cross(P[i], P[(i % n) + 1], p)) IN S[n]
Area(P) == LET n == Len(P) S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + Cross(P[i], P[(i % n) + 1], <<0, 0>>) IN S[n]
ASSUME \A P \in {Q, R}, x, y \in -4..4 : On({ P[i] : i \in DOMAIN P }, <<x, y>>) <=> AreaSum(P, <<x, y>>) = Area(P)
ASSUME \A S \in Shapes, x, y \in -4..4, k \in 0..3 : On(S, <<x, y>>) <=> On({ Turn(c, k) : c \in S }, Turn(<<x, y>>, k))
=============================================================================
