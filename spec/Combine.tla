------------------------------ MODULE Combine ------------------------------
(* Histories of runs leaving databases, and combinations of them. The combined database lies outside the results folder, inside it under the stem, or inside
   it under another name. Variants (contrast): "append" keeps the earlier table; "self" reads the combined database as if it were a result.       *)
EXTENDS CombineRules, TLC, Json
CONSTANTS MaxOps, Variant
VARIABLES dbs, next, place, table, hist, fresh
vars == <<dbs, next, place, table, hist, fresh>>
None == <<-1>>
Init == dbs = <<>> /\ next = 1 /\ place \in {"outside", "stem", "inside"} /\ table = None /\ hist = <<>> /\ fresh = FALSE
Step(op) == Len(hist) < MaxOps /\ hist' = Append(hist, op)
\* a run leaves a database of n rows, named with the stem or otherwise
AddRun == \E n \in {1, 2}, ch \in BOOLEAN :
            /\ Step([op |-> "run", n |-> n, chosen |-> ch])
            /\ dbs' = Append(dbs, [rows |-> [ i \in 1..n |-> next + i ], chosen |-> ch]) /\ next' = next + n /\ fresh' = FALSE /\ UNCHANGED <<place, table>>
RemoveRun == dbs # <<>> /\ Step([op |-> "remove", n |-> 0, chosen |-> TRUE]) /\ dbs' = Tail(dbs) /\ fresh' = FALSE /\ UNCHANGED <<next, place, table>>
Self == IF Variant = "self" /\ place = "stem" /\ table # None THEN table ELSE <<>>
Old == IF Variant = "append" /\ table # None THEN table ELSE <<>>
Combine == /\ Chosen(dbs) # <<>> /\ Step([op |-> "combine", n |-> 0, chosen |-> TRUE])
           /\ table' = Old \o Wanted(dbs) \o Self /\ fresh' = TRUE /\ UNCHANGED <<dbs, next, place>>
\* a combination that finds no results, or whose input files are missing, is refused
Refused == /\ Chosen(dbs) = <<>> /\ Step([op |-> "refused", n |-> 0, chosen |-> TRUE]) /\ fresh' = FALSE /\ UNCHANGED <<dbs, next, place, table>>
Next == AddRun \/ RemoveRun \/ Combine \/ Refused
Spec == Init /\ [][Next]_vars
ExactlyTheRows == fresh => SameBag(table, Wanted(dbs))
NothingTwice == fresh => \A x \in Els(table) : Count(table, x) = 1
Emit == (Len(hist) = MaxOps /\ \E i \in DOMAIN hist : hist[i].op = "combine") => PrintT("SCN " \o ToJson([place |-> place, ops |-> hist]))
=============================================================================
