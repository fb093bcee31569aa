----------------------------- MODULE Orbits -----------------------------
(* Orbit rows turned into motions, on a line: objects in uniform motion, the Sun in uniform motion.  "Elements" are the place at time 0 in the motion about the centre.
   The rows of a file (one format, own epochs) are converted one after the other, with a store of Sun positions by epoch; then all are observed.                    *)
EXTENDS OrbitRules, TLC, Json
CONSTANTS N, Epochs, J, Variant, Emit
VARIABLES fmt, rows, k, store, sims, seen
vars == <<fmt, rows, k, store, sims, seen>>
Sun(t) == 3 + 2 * t
SunV == 2
At(o, t) == o.x + o.v * t
Truth0 == [ x : {0, 7}, v : {-1, 4} ]
Truths == IF Emit THEN {[ x |-> 0, v |-> 4 ]} ELSE Truth0
(* the row of an object in a format, at an epoch *)
Row(o, f, ep, jd) ==
  LET h == IF Barycentric(f) THEN 0 ELSE 1
      x == At(o, ep) - h * Sun(ep)
      v == o.v - h * SunV
  IN [ p |-> IF Elements(f) THEN x - v * ep ELSE x, v |-> v, ep |-> IF jd THEN ep + J ELSE ep ]
Init == /\ fmt \in (IF Emit THEN Formats ELSE {"COM", "CART", "BCOM", "BCART"}) /\ k = 1 /\ store = << >> /\ sims = << >> /\ seen = {}
        /\ rows \in [ 1..N -> { [ o |-> o, ep |-> ep, jd |-> jd ] : o \in Truths, ep \in Epochs, jd \in BOOLEAN } ]
Known(t) == t \in DOMAIN store
Epoch(r) == IF Variant = "jdonly" THEN (IF r.ep >= J THEN r.ep - J ELSE 0) ELSE IF Variant = "firstepoch" THEN Mjd(Row(rows[1].o, fmt, rows[1].ep, rows[1].jd).ep, J) ELSE Mjd(r.ep, J)
Key(t) == IF Variant = "onesun" THEN 0 ELSE t
Convert ==
  /\ k <= N
  /\ LET r == Row(rows[k].o, fmt, rows[k].ep, rows[k].jd)
         t == Epoch(r)
         s == IF Known(Key(t)) THEN store[Key(t)] ELSE Sun(t)
         x == IF Elements(fmt) THEN r.p + r.v * t ELSE r.p
         h == IF Variant = "helio" THEN 1 ELSE IF Barycentric(fmt) THEN 0 ELSE 1
     IN /\ store' = [ u \in DOMAIN store \cup {Key(t)} |-> IF u = Key(t) THEN s ELSE store[u] ]
        /\ sims' = Append(sims, [ t |-> t, x |-> x + h * s, v |-> r.v + (IF Variant = "stillsun" THEN 0 ELSE h * SunV) ])
  /\ k' = k + 1 /\ UNCHANGED <<fmt, rows, seen>>
Observe == /\ k = N + 1 /\ \E t \in {-1, 5} : t \notin seen /\ seen' = seen \cup {t}
           /\ sims' = IF Variant = "forgets" THEN [ i \in DOMAIN sims |-> [ sims[i] EXCEPT !.x = @ + sims[i].v ] ] ELSE sims
           /\ UNCHANGED <<fmt, rows, k, store>>
Next == Convert \/ Observe
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][FALSE]_vars
(* every object is where it is, whatever its format, its epoch, the rows before it and the observations before *)
Same == \A i \in DOMAIN sims : \A t \in {-1, 0, 5} : sims[i].x + sims[i].v * (t - sims[i].t) = At(rows[i].o, t)
Stored == Variant # "onesun" => \A t \in DOMAIN store : store[t] = Sun(t)
Tell == (Emit /\ k = 1) => PrintT("SCN " \o ToJson([ fmt |-> fmt, rows |-> [ i \in 1..N |-> [ ep |-> rows[i].ep, jd |-> rows[i].jd ] ] ]))
=============================================================================
