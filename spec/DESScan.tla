------------------------------ MODULE DESScan ------------------------------
(* DES discovery as a single pass over an object's nights in time order (count of nights, arc without its ends,
   last two gaps).  The invariant says the pass decides the definition in DESRules, with the real thresholds.     *)
EXTENDS DESRules, TLC, Json
CONSTANTS Gaps, MaxNights, EmitFrom
VARIABLES T, n, first, second, last, prev, g1, trip, near50, done
vars == <<T, n, first, second, last, prev, g1, trip, near50, done>>
C == [day |-> 1, arc |-> 182, many |-> 9, few |-> 7, near |-> 60, wide |-> 90]   \* whole days: arc > 182.625 iff > 182

Init == /\ T = {0} /\ n = 1 /\ first = 0 /\ second = 0 /\ last = 0 /\ prev = 0 /\ g1 = 9999 /\ trip = FALSE
        /\ near50 \in BOOLEAN /\ done = FALSE
Add(g) ==
  /\ ~done /\ n < MaxNights
  /\ LET t == last + g IN
     /\ T' = T \cup {t} /\ n' = n + 1
     /\ second' = IF n = 1 THEN t ELSE second
     /\ prev' = last /\ last' = t
     /\ trip' = (trip \/ (g1 < Window(near50, C) /\ g < Window(near50, C)))
     /\ g1' = g
  /\ UNCHANGED <<first, near50, done>>
Stop == ~done /\ done' = TRUE /\ UNCHANGED <<T, n, first, second, last, prev, g1, trip, near50>>
Next == (\E g \in Gaps : Add(g)) \/ Stop
Spec == Init /\ [][Next]_vars

Arc == IF n = 1 THEN 0 ELSE (IF last - second < prev - first THEN last - second ELSE prev - first)
Verdict == n >= 9 \/ (n >= 7 /\ Arc > 182 /\ trip)
PassIsDefinition == Verdict = Discovered(T, near50, C)
\* more detections never undo the night count criterion
Monotone == [][n >= 9 => n' >= 9]_vars
\* two different reasons are both reachable (checked by being refuted)
Emit == (done /\ n >= EmitFrom) => PrintT("SCN " \o ToJson([T |-> T, near50 |-> near50]))
=============================================================================
