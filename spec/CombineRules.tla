---------------------------- MODULE CombineRules ----------------------------
(* What `sorcha outputs create-sqlite` must produce. A tree of result databases: [name, dir, rows] with rows a sequence of row identifiers; a database is chosen
   when its name begins with the stem (the empty stem: every database), other than the combined database itself. Input files: parameter and orbit (and
   complex) files of the given folder.                                                                                               *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Els(s) == { s[i] : i \in DOMAIN s }
Count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Els(a) \cup Els(b) : Count(a, x) = Count(b, x)
Chosen(dbs) == SelectSeq(dbs, LAMBDA d : d.chosen)
Wanted(dbs) == LET c == Chosen(dbs) IN Cat([ i \in DOMAIN c |-> c[i].rows ])
=============================================================================
