------------------------------- MODULE RunLog -------------------------------
(* One run and its log. The run processes chunks (each written to the outputs in Writes steps), finishes the outputs, and announces completion as the last
   thing it does. It can stop at any point: by an error it announces, by an error nobody catches, or killed; the outputs then stay as they are.
   Faulty variants (contrast): "swallow" goes on after an error in a chunk; "early" announces before the outputs are finished; "always" announces on the way
   out whatever happened.                                                                                                                *)
EXTENDS LogRules, TLC
CONSTANTS Chunks, Writes, Variant
VARIABLES pc, chunk, w, log, lost
vars == <<pc, chunk, w, log, lost>>
Init == pc = "started" /\ chunk = 0 /\ w = 0 /\ log = <<"start">> /\ lost = FALSE
Begin == pc = "started" /\ pc' = "loop" /\ log' = Append(log, "info") /\ UNCHANGED <<chunk, w, lost>>
Write == /\ pc = "loop" /\ chunk < Chunks
         /\ IF w + 1 = Writes THEN w' = 0 /\ chunk' = chunk + 1 ELSE w' = w + 1 /\ chunk' = chunk
         /\ UNCHANGED <<pc, log, lost>>
EndLoop == pc = "loop" /\ chunk = Chunks /\ pc' = "finish" /\ log' = (IF Variant = "early" THEN Append(log, "done") ELSE log) /\ UNCHANGED <<chunk, w, lost>>
FinishOutputs == pc = "finish" /\ pc' = "announce" /\ UNCHANGED <<chunk, w, log, lost>>
Announce == pc = "announce" /\ pc' = "ended" /\ log' = (IF Variant = "early" THEN log ELSE Append(log, "done")) /\ UNCHANGED <<chunk, w, lost>>
Running == pc \in {"started", "loop", "finish", "announce"}
Error == /\ Running
         /\ IF Variant = "swallow" /\ pc = "loop" /\ chunk < Chunks
            THEN pc' = pc /\ chunk' = chunk + 1 /\ w' = 0 /\ lost' = TRUE /\ log' = Append(log, "error")
            ELSE pc' = "stopped" /\ log' = (IF Variant = "always" THEN Append(Append(log, "error"), "done") ELSE Append(log, "error")) /\ UNCHANGED <<chunk, w, lost>>
Raise == Running /\ pc' = "stopped" /\ log' = (IF Variant = "always" THEN Append(log, "done") ELSE log) /\ UNCHANGED <<chunk, w, lost>>
Kill == Running /\ pc' = "stopped" /\ UNCHANGED <<chunk, w, log, lost>>
Next == Begin \/ Write \/ EndLoop \/ FinishOutputs \/ Announce \/ Error \/ Raise \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Write \/ EndLoop \/ FinishOutputs \/ Announce)
At == { i \in DOMAIN log : log[i] = "done" }
Whole == chunk = Chunks /\ ~lost /\ pc \in {"announce", "ended"}
DoneMeansWhole == ReportedDone(At, Len(log)) => Whole
DoneOnlyAtTheEnd == At \subseteq {Len(log)} /\ (At # {} => pc = "ended")
EndedMeansDone == pc = "ended" => ReportedDone(At, Len(log))
StoppedIsNotDone == pc = "stopped" => At = {}
Terminates == <>(pc \in {"ended", "stopped"})
=============================================================================
