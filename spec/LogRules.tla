------------------------------ MODULE LogRules ------------------------------
(* What the log of a run says, and what the log checker must say about it. A log is a sequence of lines; Done is the completion message (as it stands at
   the end of a log line).                                                                                                               *)
EXTENDS Integers, Sequences, FiniteSets
\* ends[i]: line i ends with the completion message
Complete0(ends) == Len(ends) > 0 /\ ends[Len(ends)]
LastOf(lines) == IF lines = <<>> THEN "" ELSE lines[Len(lines)]
\* a run: all = everything it had to write is written (every chunk, statistics, index); at = positions of completion messages in its log of n lines
ReportedDone(at, n) == n \in at
=============================================================================
