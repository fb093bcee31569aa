------------------------------ MODULE LinkPop ------------------------------
(* The linking step over a population, as a state machine: objects are taken from the table one at a time, in any order,
   judged on their own rows, and their rows are kept or annotated.  Whatever the order, the result is a function of each
   object's own rows.                                                                                              *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Objs, MaxRows
VARIABLES rows, good, drop, todo, out
vars == <<rows, good, drop, todo, out>>

Init == /\ rows \in [Objs -> 0 .. MaxRows]         \* rows per object
        /\ good \in SUBSET Objs                     \* objects whose own rows satisfy Linking!IsLinked
        /\ drop \in BOOLEAN
        /\ todo = { o \in Objs : rows[o] > 0 }
        /\ out = {}
RowsOf(o) == { [obj |-> o, k |-> k] : k \in 1 .. rows[o] }
Annotate(o) == { [row |-> r, linked |-> o \in good] : r \in RowsOf(o) }
Keep(o) == /\ o \in todo /\ (o \in good \/ ~drop)
           /\ out' = out \cup Annotate(o) /\ todo' = todo \ {o}
           /\ UNCHANGED <<rows, good, drop>>
Drop(o) == /\ o \in todo /\ o \notin good /\ drop
           /\ todo' = todo \ {o} /\ UNCHANGED <<rows, good, drop, out>>
Next == \E o \in Objs : Keep(o) \/ Drop(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == \A o \in Objs : LET mine == { a \in out : a.row.obj = o }
                         IN mine = {} \/ mine = Annotate(o)
Result == UNION { Annotate(o) : o \in { o \in Objs : rows[o] > 0 /\ (drop => o \in good) } }
Confluent == todo = {} => out = Result
Terminates == <>(todo = {})
=============================================================================
