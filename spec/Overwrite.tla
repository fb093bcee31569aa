------------------------------ MODULE Overwrite ------------------------------
(* Histories of runs writing to one directory: each has an output name, a format, perhaps a statistics file, and may be forced. A run first looks for existing
   outputs of its names, in every format, then clears them when forced, then writes by appending. A run two of whose outputs are one csv
   file is refused. Variants (contrast): "blind" does not see that two outputs are one file; "sameformat" looks only for a file of its
   own format; "one" clears only one of the files found.                                                                                *)
EXTENDS OverwriteRules, TLC, Json
CONSTANTS MaxRuns, Variant
VARIABLES dir, n, hist, lastrun
vars == <<dir, n, hist, lastrun>>
Stems == {"a", "ab"}
Formats == {"csv", "db", "h5"}
Stats == {"", "s", "a"}
File(s, x) == s \o "." \o x
Claimed(cmd) == { File(cmd.stem, x) : x \in Formats } \cup (IF cmd.stats = "" THEN {} ELSE { File(cmd.stats, "csv") })
Looked(cmd) == IF Variant = "sameformat" THEN { File(cmd.stem, cmd.fmt) } \cup (Claimed(cmd) \ { File(cmd.stem, x) : x \in Formats }) ELSE Claimed(cmd)
Csvs(cmd) == (IF cmd.fmt = "csv" THEN <<File(cmd.stem, "csv")>> ELSE <<>>) \o (IF cmd.stats = "" THEN <<>> ELSE <<File(cmd.stats, "csv")>>)
Shares(cmd) == Variant # "blind" /\ SharesFile(Csvs(cmd))
Cmds == [stem : Stems, fmt : Formats, stats : Stats, force : BOOLEAN]
\* dir: set of [name, c, k] with c the set of runs whose rows are in it (0 stands for somebody else's file) and k the kinds of its rows
Init == n = 0 /\ hist = <<>> /\ dir \in { {}, { [name |-> "ab.csv", c |-> {0}, k |-> {"res"}] }, { [name |-> "a.csv", c |-> {0}, k |-> {"res"}], [name |-> "notes.txt", c |-> {0}, k |-> {}] } } /\ lastrun = <<>>
Found(cmd) == { f \in dir : f.name \in Looked(cmd) }
Cleared(cmd) == IF Variant = "one" /\ Found(cmd) # {} THEN { CHOOSE f \in Found(cmd) : TRUE } ELSE Found(cmd)
Append1(fs, name, r, kind) == LET old == { g \in fs : g.name = name }
                              IN (fs \ old) \cup { [name |-> name, c |-> {r} \cup UNION { f.c : f \in old }, k |-> {kind} \cup UNION { f.k : f \in old }] }
Write(fs, cmd, r) == LET o == Append1(fs, File(cmd.stem, cmd.fmt), r, "res") IN IF cmd.stats = "" THEN o ELSE Append1(o, File(cmd.stats, "csv"), r, "stat")
Run == /\ n < MaxRuns
       /\ \E cmd \in Cmds :
            /\ n = 0 => cmd.stem = "a"
            /\ n' = n + 1 /\ hist' = Append(hist, cmd)
            /\ IF Found(cmd) # {} /\ ~cmd.force
               THEN dir' = dir /\ lastrun' = <<"refused", cmd, dir>>
               ELSE IF Shares(cmd)  \* (found out after clearing)
               THEN dir' = dir \ Cleared(cmd) /\ lastrun' = <<"shares", cmd, dir>>
               ELSE dir' = Write(dir \ Cleared(cmd), cmd, n + 1) /\ lastrun' = <<"ran", cmd, dir>>
Init0 == Init
Next == Run
Spec == Init0 /\ [][Next]_vars
Ran == lastrun # <<>> /\ lastrun[1] = "ran"
RefusedWhenNeeded == Ran => ~MustRefuse(lastrun[3], Claimed(lastrun[2]), lastrun[2].force)
OnlyThisRun == Ran => \A f \in dir : f.name \in Claimed(lastrun[2]) => f.c = {n}
RefusedChangesNothing == (lastrun # <<>> /\ lastrun[1] = "refused") => dir = lastrun[3]
OthersUntouched == Ran => Untouched(lastrun[3], dir, Claimed(lastrun[2]), {})
NotMoreThanNeeded == (lastrun # <<>> /\ lastrun[1] = "refused") => MustRefuse(lastrun[3], Claimed(lastrun[2]), lastrun[2].force)
OneKind == \A f \in dir : Cardinality(f.k) <= 1
SharingRefused == Ran => ~SharesFile(Csvs(lastrun[2]))
UnforcedChangesNothing == (lastrun # <<>> /\ lastrun[1] # "ran" /\ ~lastrun[2].force) => dir = lastrun[3]
Emit == (n = MaxRuns) => PrintT("SCN " \o ToJson([cmds |-> hist]))
=============================================================================
