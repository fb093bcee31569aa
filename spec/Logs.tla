-------------------------------- MODULE Logs --------------------------------
(* Runs sharing a directory tree, and the log checker. Runs start (a new, empty log), write lines, complete (completion message last) or stop; the checker
   may look at any time. Lines: "info"; "error"; "blank" (an empty message); "near" (names the completion message without ending in it); "done"; a log that
   several runs wrote to may go on after "done". Emits every set of logs the checker can meet.                                              *)
EXTENDS LogRules, TLC, Json
CONSTANTS MaxLogs, MaxLines
VARIABLES logs, report
vars == <<logs, report>>
Kinds == {"info", "error", "blank", "near", "done"}
None == <<>>
Init == logs = <<>> /\ report = None
StartRun == Len(logs) < MaxLogs /\ logs' = Append(logs, <<>>) /\ report' = None
WriteLine == \E i \in DOMAIN logs, k \in Kinds : Len(logs[i]) < MaxLines /\ i = Len(logs) /\ logs' = [logs EXCEPT ![i] = Append(@, k)] /\ report' = None
Ends(log) == [ i \in DOMAIN log |-> log[i] = "done" ]
Check == /\ logs # <<>> /\ report = None
         /\ report' = [ i \in DOMAIN logs |-> [ok |-> Complete0(Ends(logs[i])), last |-> LastOf(logs[i])] ]
         /\ UNCHANGED logs
Next == StartRun \/ WriteLine \/ Check
Spec == Init /\ [][Next]_vars
EachOnce == report # None => DOMAIN report = DOMAIN logs
OkIffDoneLast == report # None => \A i \in DOMAIN logs : report[i].ok <=> (report[i].last = "done")
EmptyIsNotOk == report # None => \A i \in DOMAIN logs : logs[i] = <<>> => ~report[i].ok
Emit == report # None => PrintT("SCN " \o ToJson([logs |-> logs]))
=============================================================================
