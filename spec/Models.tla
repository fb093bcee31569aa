----------------------------- MODULE Models -----------------------------
(* Brightness models: classes are defined, registries scanned, and runs apply the model chosen by name to every candidate, chunk by chunk.  Checked: a name once
   registered keeps its class; every name belongs to a class that carries it; a run adds the chosen models once to each candidate and nothing when none is chosen. *)
EXTENDS ModelsRules, TLC
CONSTANTS MaxDef, Variant
VARIABLES defined, lc, ca, old, run, left, done
vars == <<defined, lc, ca, old, run, left, done>>
NameSet == {"a", "b"}
NoRun == [ lc |-> None, ca |-> None, on |-> FALSE ]
Cand == {1, 2, 3}
Init == defined = <<>> /\ lc = <<>> /\ ca = <<>> /\ old = <<>> /\ run = NoRun /\ left = {} /\ done = <<>>
Define == /\ Len(defined) < MaxDef /\ ~run.on
          /\ \E k \in {"lc", "ca"}, n \in NameSet : defined' = Append(defined, <<k, Len(defined) + 1, n>>)
          /\ old' = lc /\ UNCHANGED <<lc, ca, run, left, done>>
Put(reg, cs) == IF Variant = "replace" THEN [ n \in DOMAIN reg \cup Names(cs) |-> IF n \in Names(cs) THEN cs[CHOOSE i \in DOMAIN cs : cs[i][3] = n /\ \A j \in DOMAIN cs : j > i => cs[j][3] # n][2] ELSE reg[n] ] ELSE Scan(reg, cs)
Rescan == /\ ~run.on /\ old' = lc
          /\ lc' = Put(lc, IF Variant = "mixed" THEN defined ELSE Of(defined, "lc")) /\ ca' = Put(ca, Of(defined, "ca"))
          /\ UNCHANGED <<defined, run, left, done>>
Start == /\ ~run.on
         /\ \E x \in NameSet \cup {None}, y \in NameSet \cup {None} :
              /\ Usable(lc, x) /\ Usable(ca, y)
              /\ run' = [ lc |-> x, ca |-> y, on |-> TRUE ] /\ left' = Cand /\ done' = [ c \in Cand |-> 0 ]
         /\ old' = lc /\ UNCHANGED <<defined, lc, ca>>
Shift == (IF run.lc = None THEN 0 ELSE lc[run.lc]) + 100 * (IF run.ca = None THEN 0 ELSE ca[run.ca])
Chunk == /\ run.on /\ left # {}
         /\ \E S \in SUBSET left : S # {} /\ left' = left \ S /\ done' = [ c \in Cand |-> IF c \in S \/ (Variant = "again" /\ c \notin left) THEN done[c] + Shift ELSE done[c] ]
         /\ old' = lc /\ UNCHANGED <<defined, lc, ca, run>>
Stop == run.on /\ left = {} /\ run' = NoRun /\ old' = lc /\ UNCHANGED <<defined, lc, ca, left, done>>
Next == Define \/ Rescan \/ Start \/ Chunk \/ Stop
Spec == Init /\ [][Next]_vars
Kept == \A n \in DOMAIN old : n \in DOMAIN lc /\ lc[n] = old[n]
Carried == /\ \A n \in DOMAIN lc : defined[lc[n]] = <<"lc", lc[n], n>>
           /\ \A n \in DOMAIN ca : defined[ca[n]] = <<"ca", ca[n], n>>
Applied == run.on => \A c \in Cand : done[c] = IF c \in left THEN 0 ELSE Shift
=============================================================================
