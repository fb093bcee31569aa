------------------------------ MODULE DESCuts ------------------------------
(* The three selections as stages over a small population, each object's rows handled separately in any order (chunks),
   against Select over the whole table.                                                                          *)
EXTENDS DESRules
CONSTANTS Objs, Vals, MaxRows
VARIABLES rows, cfg, todo, out
vars == <<rows, cfg, todo, out>>
Row == [obj : Objs, t : 0 .. 1, r : Vals, m : Vals]
Cfgs == { [distOn |-> d, rlo |-> 0, rhi |-> 2, motOn |-> m, mlo |-> 0, mhi |-> 2, disc |-> c, far |-> 1,
           day |-> 1, arc |-> 0, many |-> 2, few |-> 2, near |-> 1, wide |-> 1] : d, m, c \in BOOLEAN }
Init == /\ rows \in UNION { [1 .. k -> Row] : k \in 1 .. MaxRows }
        /\ cfg \in Cfgs /\ todo = { rows[i].obj : i \in DOMAIN rows } /\ out = {}
Mine(o) == { i \in DOMAIN rows : rows[i].obj = o }
Take(o) == /\ o \in todo /\ todo' = todo \ {o}
           /\ out' = out \cup Discovery(rows, Motion(rows, Distance(rows, Mine(o), cfg), cfg), cfg)
           /\ UNCHANGED <<rows, cfg>>
Next == \E o \in Objs : Take(o)
Spec == Init /\ [][Next]_vars
ObjectwiseIsWhole == todo = {} => out = Select(rows, cfg)
\* whole objects: with the motion cut off an object is kept with all its rows or not at all
WholeObjects == (todo = {} /\ ~cfg.motOn) => \A o \in Objs : (Mine(o) \cap out = {}) \/ (Mine(o) \subseteq out)
NothingWhenOff == (todo = {} /\ ~cfg.motOn /\ ~cfg.distOn /\ ~cfg.disc) => out = DOMAIN rows
=============================================================================
