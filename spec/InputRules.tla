----------------------------- MODULE InputRules -----------------------------
(* When the input files of a run are consistent. An input: orb, phys, cpx (identifiers, in file order; cpx <<"off">> when not used), fmts (format of each
   orbit row), cols (which columns the orbit file has), main (filter of the H_ column, "none" when absent), req (requested filters, main first),
   colours (filters with a colour column), times (per object: do its ephemeris times agree with the visits), chunk.      *)
EXTENDS Integers, Sequences, FiniteSets
Formats == {"COM", "BCOM", "KEP", "BKEP", "CART", "BCART"}
Els(s) == { s[i] : i \in DOMAIN s }
Count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
SameBag(a, b) == \A x \in Els(a) \cup Els(b) : Count(a, x) = Count(b, x)
SameObjects(in) == SameBag(in.orb, in.phys) /\ (in.cpx = <<"off">> \/ SameBag(in.orb, in.cpx))
OneFormat(in) == Cardinality(Els(in.fmts)) = 1 /\ Els(in.fmts) \subseteq Formats /\ in.cols = "exact"
Magnitudes(in) == in.main \in Els(in.req) /\ \A f \in Els(in.req) \ {in.main} : f \in Els(in.colours)
Static(in) == SameObjects(in) /\ OneFormat(in) /\ Magnitudes(in)
Timely(in) == \A i \in DOMAIN in.times : in.times[i]
Consistent(in) == Static(in) /\ Timely(in)
=============================================================================
