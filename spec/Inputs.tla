------------------------------- MODULE Inputs -------------------------------
(* A run checking its inputs: parameter files before anything is processed, ephemeris times chunk by chunk as they are read.
   Inputs deviate from a consistent base in up to two respects.                                                        *)
EXTENDS InputRules, TLC, Json
VARIABLES in, pc, cursor, out
vars == <<in, pc, cursor, out>>

Base == [orb |-> <<"a", "b", "c">>, phys |-> <<"a", "b", "c">>, cpx |-> <<"off">>, fmts |-> <<"COM", "COM", "COM">>, cols |-> "exact", main |-> "r", req |-> <<"r", "g">>,
         colours |-> <<"g">>, times |-> <<TRUE, TRUE, TRUE>>, chunk |-> 1]
Lists == { <<"a", "b", "c">>, <<"c", "a", "b">>, <<"a", "b">>, <<"a", "b", "c", "d">>, <<"a", "b", "d">>, <<"a", "b", "b">>, <<"b", "c">>, <<"a", "b", "C">>, <<"a", "b", "c", "c">> }
PhysVar == { [Base EXCEPT !.phys = p] : p \in Lists }
OrbVar == { [Base EXCEPT !.orb = p, !.phys = q] : p \in { l \in Lists : Len(l) = 3 /\ Cardinality(Els(l)) = 3 }, q \in { l \in Lists : Len(l) = 3 } }
     \cup { [Base EXCEPT !.orb = <<"a", "a", "b">>, !.phys = q] : q \in { <<"a", "b", "c">>, <<"a", "b", "b">> } } \* the same number of rows
CpxVar == { [Base EXCEPT !.cpx = p] : p \in Lists } \cup { [Base EXCEPT !.cpx = p, !.phys = q] : p \in { <<"a", "b", "d">>, <<"a", "b", "c">> }, q \in { <<"a", "b", "d">>, <<"c", "b", "a">> } }
FmtVar == { [Base EXCEPT !.fmts = <<f, f, f>>] : f \in Formats \cup {"XYZ", "com"} }
     \cup { [Base EXCEPT !.fmts = <<f, g, h>>] : f \in {"COM", "BCOM"}, g \in {"COM", "BCOM"}, h \in {"COM", "BCOM", "KEP"} }
     \cup { [Base EXCEPT !.fmts = <<"CART", "CART", "BCART">>], [Base EXCEPT !.fmts = <<"BKEP", "KEP", "KEP">>] }
ColVar == { [Base EXCEPT !.cols = x, !.fmts = <<f, f, f>>] : x \in {"missing", "extra", "noformat", "otherset"}, f \in Formats }
MagVar == { [Base EXCEPT !.main = m, !.req = q, !.colours = s] : m \in {"none"}, q \in { <<"r">>, <<"r", "g">> }, s \in { <<"g">> } }
     \cup { [Base EXCEPT !.main = m, !.req = q, !.colours = s] : m \in {"r", "g", "i"}, q \in { <<"r">>, <<"r", "g">>, <<"r", "i", "g">>, <<"g", "i">> }, s \in { <<>>, <<"g">>, <<"i">>, <<"g", "i">>, <<"r", "i">> } }
\* the main filter, when requested, is the first of the list (documented); a file has no colour of its own main filter
MagOK(x) == (x.main \in Els(x.req) => x.req[1] = x.main) /\ x.main \notin Els(x.colours)
TimeVar == { [Base EXCEPT !.times = <<a, b, c>>] : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN }
Two == { [Base EXCEPT !.times = <<TRUE, TRUE, FALSE>>, !.phys = <<"a", "b", "d">>], [Base EXCEPT !.fmts = <<"COM", "COM", "BCOM">>, !.times = <<FALSE, TRUE, TRUE>>],
         [Base EXCEPT !.req = <<"r", "i">>, !.fmts = <<"COM", "BCOM", "COM">>] }
Inputs == { [x EXCEPT !.chunk = k] : x \in { y \in PhysVar \cup OrbVar \cup CpxVar \cup FmtVar \cup ColVar \cup MagVar \cup TimeVar \cup Two : MagOK(y) }, k \in {1, 2, 100} }

Init == in \in Inputs /\ pc = "check" /\ cursor = 0 /\ out = {}
Refuse == pc' = "refused" /\ UNCHANGED <<in, cursor, out>>
CheckStatic == pc = "check" /\ IF Static(in) THEN pc' = "loop" /\ UNCHANGED <<in, cursor, out>> ELSE Refuse
Slice == { i \in DOMAIN in.orb : cursor < i /\ i <= cursor + in.chunk }
Chunk == /\ pc = "loop" /\ cursor < Len(in.orb)
         /\ IF \A i \in Slice : i \in DOMAIN in.times => in.times[i]
            THEN out' = out \cup Slice /\ cursor' = cursor + in.chunk /\ UNCHANGED <<in, pc>> ELSE Refuse
Finish == pc = "loop" /\ cursor >= Len(in.orb) /\ pc' = "done" /\ UNCHANGED <<in, cursor, out>>
Next == CheckStatic \/ Chunk \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
DoneIffConsistent == (pc = "done" => Consistent(in)) /\ (pc = "refused" => ~Consistent(in))
StaticRefusalLeavesNothing == (pc = "refused" /\ ~Static(in)) => out = {}
DoneReportsAll == pc = "done" => out = DOMAIN in.orb
Ends == <>(pc \in {"done", "refused"})
Emit == pc = "check" => PrintT("SCN " \o ToJson(in))
=============================================================================
