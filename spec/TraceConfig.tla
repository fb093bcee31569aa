----------------------------- MODULE TraceConfig -----------------------------
(* config: example (one of the files that come with the code), sv, c (as written), outcome "accepted" / "refused" / "failed", words (the refusal says something), held (what the code holds for every key), parts, log (failure of writing
   the settings to the log, or "").
   run: a configuration given to a run: sv, c, outcome "done" / "refused" / "failed", wrote (some detections file was written).                                               *)
EXTENDS TraceBase, ConfigRules
ConfigClauses(e) ==
  LET v == Verdict(e.c, e.sv) IN
  << <<"no-internal-failure", e.outcome # "failed">>,
     <<"refused", v = "refused" => e.outcome # "accepted">>,
     <<"accepted", v = "accepted" => e.outcome # "refused">>,
     <<"example-accepted", e.example => e.outcome = "accepted">>,
     <<"explained", e.outcome = "refused" => e.words>>,
     <<"values-kept", e.outcome = "accepted" /\ v = "accepted" => \A k \in DOMAIN e.held : Kept(e.c, e.sv, k, e.held[k])>>,
     <<"parts", e.outcome = "accepted" /\ v = "accepted" => e.parts = Parts(e.c, e.sv)>>,
     <<"told", e.outcome = "accepted" => e.log = "">> >>
RunClauses(e) ==
  LET v == Verdict(e.c, e.sv) IN
  << <<"run-no-internal-failure", e.outcome # "failed">>,
     <<"run-refused", v = "refused" => e.outcome # "done" /\ ~e.wrote>>,
     <<"run-done", v = "accepted" => e.outcome # "refused">> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "config" -> Advance(Failing(ConfigClauses(e)))
                  [] e.ev = "run" -> Advance(Failing(RunClauses(e)))
                  [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
