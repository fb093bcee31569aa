----------------------------- MODULE RunSplit -----------------------------
(* A population processed by several runs, each with its own chunk size and its own order of objects; every run reports, for the objects
   it takes, a function of the object alone.  Whatever the partition, the orders and the interleaving of the runs, the united outputs
   are the objects' own detections.  A stage looking across objects (Crosstalk) breaks it: RunSplitX.cfg, checked as a contrast. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Objs, NRuns, Sizes, Crosstalk
VARIABLES part, size, left, out
vars == <<part, size, left, out>>
Own(o) == { <<o, k>> : k \in 1 .. (o % 3) }
\* what a chunk reports for one of its objects: its own rows; with crosstalk, a chunk with more than one object loses a row
Rep(o, chunk) == IF Crosstalk /\ Cardinality(chunk) > 1 THEN Own(o) \ {<<o, 1>>} ELSE Own(o)
Init == /\ part \in [Objs -> 1 .. NRuns]
        /\ size \in [1 .. NRuns -> Sizes]
        /\ left = [r \in 1 .. NRuns |-> { o \in Objs : part[o] = r }]
        /\ out = {}
\* any order of rows: a chunk is any set of the remaining objects
Take(r) == \E c \in SUBSET left[r] : /\ c # {} /\ (Cardinality(c) = size[r] \/ (c = left[r] /\ Cardinality(c) < size[r]))
                                     /\ left' = [left EXCEPT ![r] = @ \ c]
                                     /\ out' = out \cup UNION { Rep(o, c) : o \in c }
                                     /\ UNCHANGED <<part, size>>
Next == \E r \in 1 .. NRuns : Take(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A r \in 1 .. NRuns : left[r] = {}
Whole == Done => out = UNION { Own(o) : o \in Objs }
Never == \A x \in out : x \in Own(x[1])
Ends == <>Done
=============================================================================
