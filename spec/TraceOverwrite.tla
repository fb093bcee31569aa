--------------------------- MODULE TraceOverwrite ---------------------------
(* event cmd: before, after (files: name, c content), claimed, near, own, new (names), keep (its own input files), force, refused, raised, done (the command
   did its work), rows (for every claimed file present afterwards: the runs c its rows are of, and the kinds k of rows, told apart
   by their number of fields), csvs (the csv outputs of the command), me, must (outputs that must be there when done).        *)
EXTENDS OverwriteRules, TraceBase
S(s) == { s[i] : i \in DOMAIN s }
Clauses(e) == LET b == S(e.before)
                  a == S(e.after)
                  claimed == S(e.claimed)
                  near == S(e.near)
                  mine == claimed \cup near
              IN <<
  <<"existing-output-is-refused", MustRefuse(b, claimed, e.force) => e.refused>>,
  <<"refused-changes-nothing", (e.refused /\ ~e.force) => { f \in a : f.name \notin S(e.new) } = b>>,
  <<"not-refused-without-reason", (e.refused /\ ~e.inputHit /\ ~SharesFile(e.csvs)) => MayRefuse(b, claimed, near, e.force)>>,
  <<"only-rows-of-this-run", (~e.refused /\ e.done) => \A i \in DOMAIN e.rows : S(e.rows[i].c) \subseteq {e.me}>>,
  <<"one-file-for-each-output", SharesFile(e.csvs) => e.refused>>,
  <<"one-kind-of-rows-in-a-file", (~e.refused /\ e.done) => \A i \in DOMAIN e.rows : Len(e.rows[i].k) <= 1>>,
  <<"outputs-are-there", (~e.refused /\ e.done) => S(e.must) \subseteq Names(a)>>,
  <<"accepted-command-works", ~e.refused => e.done>>,
  <<"nothing-else-touched", Untouched(b, a, mine, S(e.new))>>,
  <<"inputs-survive", { f \in b : f.name \in S(e.keep) } \subseteq a>>,
  <<"only-its-outputs-appear", (Names(a) \ Names(b)) \subseteq (S(e.own) \cup S(e.new))>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN IF e.ev = "cmd" THEN Advance(Failing(Clauses(e))) ELSE Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
