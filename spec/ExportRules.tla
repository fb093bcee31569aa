----------------------------- MODULE ExportRules -----------------------------
(* What the exported ephemeris holds: the rows of every chunk, in order, nothing else; what a reader takes from it for a chunk of objects. *)
EXTENDS Naturals, Sequences, FiniteSets
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Of(file, objs, obj(_)) == SelectSeq(file, LAMBDA r : obj(r) \in objs)
Bag(s) == [ x \in { s[i] : i \in DOMAIN s } |-> Cardinality({ i \in DOMAIN s : s[i] = x }) ]
=============================================================================
