----------------------------- MODULE ModelsRules -----------------------------
(* The two registries of brightness models (light curves "lc", activity "ca").  A class is <<kind, tag, name>>; defined: classes in order of definition. *)
EXTENDS Naturals, Sequences, FiniteSets
Of(defined, k) == SelectSeq(defined, LAMBDA c : c[1] = k)
Names(cs) == { cs[i][3] : i \in DOMAIN cs }
Twice(cs) == \E i, j \in DOMAIN cs : i # j /\ cs[i][3] = cs[j][3]
First(cs, n) == cs[CHOOSE i \in DOMAIN cs : cs[i][3] = n /\ \A j \in 1..(i - 1) : cs[j][3] # n][2]
(* a scan adds names that are new and leaves the others *)
Scan(reg, cs) == [ n \in DOMAIN reg \cup Names(cs) |-> IF n \in DOMAIN reg THEN reg[n] ELSE First(cs, n) ]
(* building anew is refused when a name occurs twice *)
Build(cs) == [ n \in Names(cs) |-> First(cs, n) ]
(* what a run adds to an object's magnitude *)
None == "none"
Usable(reg, c) == c = None \/ c \in DOMAIN reg
=============================================================================
