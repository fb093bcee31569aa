----------------------------- MODULE Match -----------------------------
(* A chunk of candidates is joined to the visit table (requested filters only) and then gets, filter by filter, the colour of its object and its phase
   parameter; visits, filters and candidates are taken in any order.  Checked: the result does not depend on the order, every candidate of a
   requested visit appears once, no other does, and each has its own visit, colour and parameter.                                  *)
EXTENDS MatchRules, TLC
CONSTANTS Filters, Main, Variant
VARIABLES visits, req, cand, rows, todo, filts, pc
vars == <<visits, req, cand, rows, todo, filts, pc>>
Objs == 1..2
Obj(o) == [ H |-> 10 * o, colour |-> [ f \in Filters |-> IF f = Main THEN 0 ELSE o + 2 * f ], par |-> [ f \in Filters |-> 100 * o + f ] ]
Init == /\ visits \in [ 1..2 -> [ f : Filters ] ]
        /\ req \in { S \in SUBSET Filters : Main \in S }
        /\ cand \in UNION { [ 1..n -> [ o : Objs, v : 1..3 ] ] : n \in 0..2 }
        /\ rows = {} /\ todo = DOMAIN cand /\ filts = {} /\ pc = "join"
Join == /\ pc = "join"
        /\ IF todo = {} THEN pc' = "colour" /\ filts' = { r.f : r \in rows } /\ UNCHANGED <<rows, todo>>
           ELSE \E i \in todo :
                  /\ todo' = todo \ {i}
                  /\ rows' = IF (Variant = "allfilters" /\ cand[i].v \in DOMAIN visits) \/ Wanted(visits, cand[i].v, req)
                             THEN rows \cup { [ i |-> i, o |-> cand[i].o, v |-> cand[i].v, f |-> visits[cand[i].v].f, H |-> Obj(cand[i].o).H, par |-> 0 ] } ELSE rows
                  /\ UNCHANGED <<pc, filts>>
        /\ UNCHANGED <<visits, req, cand>>
Colour == /\ pc = "colour"
          /\ IF filts = {} THEN pc' = "end" /\ UNCHANGED <<rows, filts>>
             ELSE \E f \in filts :
                    /\ filts' = filts \ {f}
                    /\ rows' = { IF r.f = f \/ (Variant = "unmasked" /\ r.f # Main)
                                 THEN [ r EXCEPT !.H = @ + (IF f = Main THEN 0 ELSE Obj(r.o).colour[f]), !.par = Obj(r.o).par[f] ] ELSE r : r \in rows }
                    /\ pc' = pc
          /\ UNCHANGED <<visits, req, cand, todo>>
Next == Join \/ Colour
Spec == Init /\ [][Next]_vars
Own == pc = "end" => \A r \in rows : /\ r.f = visits[r.v].f
                                     /\ r.H = HIn(Obj(r.o), r.f, Main)
                                     /\ r.par = Obj(r.o).par[r.f]
Whole == pc = "end" => { r.i : r \in rows } = { i \in DOMAIN cand : Wanted(visits, cand[i].v, req) }
=============================================================================
