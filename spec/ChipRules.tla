----------------------------- MODULE ChipRules -----------------------------
(* Per-visit detector outlines along right ascension: positions on a circle of M, an outline from its start over its length, stored in one of several ways. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT M
Stored(c, how) == CASE how = "on" -> [ a |-> c.start, b |-> c.start + c.len ]
                    [] how = "back" -> [ a |-> c.start - M, b |-> c.start + c.len - M ]
                    [] OTHER -> [ a |-> c.start % M, b |-> (c.start + c.len) % M ]
Rel(x, centre) == ((x - centre + M \div 2) % M) - M \div 2
Holds(c, x) == LET k == (x - c.start) % M IN 0 < k /\ k < c.len
Covers(chips, x) == { i \in DOMAIN chips : Holds(chips[i], x) }
=============================================================================
