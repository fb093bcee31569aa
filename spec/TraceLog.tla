------------------------------ MODULE TraceLog ------------------------------
(* event run: code (exit status), killed, lines (number of log lines), at (positions of completion messages), logs (number of logs it wrote), whole (are all
   outputs those of the undisturbed run), fault (was it disturbed).
   event report: n logs, last (their last lines), done (do they end with the completion message), rows (log, ok, last) of the saved report, failed (logs named
   as failed, with last line, when printed), saved, asked (was a file asked for), refused.                                                     *)
EXTENDS LogRules, TraceBase
Set(s) == { s[i] : i \in DOMAIN s }
RunClauses(e) == <<
  <<"one-log", e.logs = 1 \/ e.early>>,
  <<"completed-means-everything-written", ReportedDone(Set(e.at), e.lines) => e.whole>>,
  <<"completion-only-as-last-line", Set(e.at) \subseteq {e.lines}>>,
  <<"ended-means-completed", (e.code = 0 /\ ~e.killed) => ReportedDone(Set(e.at), e.lines)>>,
  <<"stopped-means-not-completed", (e.code # 0 \/ e.killed) => (ReportedDone(Set(e.at), e.lines) => e.whole)>>,
  <<"undisturbed-run-completes", (~e.fault) => (e.code = 0 /\ ReportedDone(Set(e.at), e.lines))>>,
  <<"refusal-is-not-completion", e.refusal => (e.code # 0 /\ Set(e.at) = {})>> >>
AllDone(e) == \A i \in 1..e.n : e.done[i]
\* an all-successful set of logs is only announced, not listed
ReportClauses(e) == <<
  <<"no-logs-is-an-error", (e.n = 0) => e.refused>>,
  <<"logs-are-not-an-error", (e.n > 0) => ~e.refused>>,
  <<"saved-when-asked", (e.n > 0 /\ e.asked /\ ~AllDone(e)) => e.saved>>,
  <<"each-log-once", (e.n > 0 /\ e.saved) => (Len(e.rows) = e.n /\ { e.rows[k].log : k \in DOMAIN e.rows } = 1..e.n)>>,
  <<"successful-iff-completed", e.saved => \A k \in DOMAIN e.rows : e.rows[k].log \in 1..e.n => (e.rows[k].ok <=> e.done[e.rows[k].log])>>,
  <<"last-line-given", e.saved => \A k \in DOMAIN e.rows : (e.rows[k].log \in 1..e.n /\ ~e.done[e.rows[k].log]) => e.rows[k].last = e.last[e.rows[k].log]>>,
  <<"failures-listed", (e.n > 0 /\ ~e.asked) => (Len(e.failed) = Cardinality({ i \in 1..e.n : ~e.done[i] })
                         /\ { e.failed[k].log : k \in DOMAIN e.failed } = { i \in 1..e.n : ~e.done[i] })>>,
  <<"all-good-announced", (e.n > 0) => (e.allgood <=> AllDone(e))>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN IF e.ev = "run" THEN Advance(Failing(RunClauses(e))) ELSE IF e.ev = "report" THEN Advance(Failing(ReportClauses(e)))
                                     ELSE Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
