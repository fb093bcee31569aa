--------------------------- MODULE OverwriteRules ---------------------------
(* What a command that writes files may do to a directory. Files are [name, c] with c identifying the content. A command names its outputs: own (files it may
   write), claimed (files of its name, in any of the output formats: existing ones must stop it unless forced, and are replaced when forced), near (other files
   <name>.*, which -f may clear away), new (files such as logs that it may create beside them).                                         *)
EXTENDS Integers, Sequences, FiniteSets
Names(fs) == { f.name : f \in fs }
\* files outside the command's reach keep their content, and nothing else appears
Others(fs, mine) == { f \in fs : f.name \notin mine }
Untouched(before, after, mine, new) == Others(before, mine) = { f \in Others(after, mine) : f.name \notin new }
MustRefuse(before, claimed, force) == ~force /\ Names(before) \cap claimed # {}
MayRefuse(before, claimed, near, force) == ~force /\ Names(before) \cap (claimed \cup near) # {}
\* rows are appended to the csv outputs of a run as it proceeds: a run (csvs: the names of its csv outputs, one for each) must not write two of them into one file
SharesFile(csvs) == Cardinality({ csvs[i] : i \in DOMAIN csvs }) < Len(csvs)
=============================================================================
