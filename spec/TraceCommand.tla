---------------------------- MODULE TraceCommand ----------------------------
(* verb: words after `sorcha`; verbs: those installed; started: the programs that ran, each with its arguments args, whether it had the caller's input and directory (same);
         want: the status it ended with (999: by a signal); status: sorcha's; version: whether the version was printed and is right.
   run: cmd (given, gone, survey, eph, lc, ca, cam, shared); status, raised; started ("" or "lsst"/"des"); set: setting -> which option's value it has ("" none given);
        seed: whether the random numbers are those of the seed given (TRUE when none was); again: the number of simulations started.
   file: a command that writes a text: asked (its target is right), status, same (what is written is what is printed), there; others: other files changed.
   demo: the command printed by `sorcha demo howto`: status of running it where its files are; started.
   refuse: a command that said it would not do something; status.                                                                                              *)
EXTENDS TraceBase, CommandRules
S(s) == { s[i] : i \in DOMAIN s }
VerbClauses(e) ==
  LET d == Dispatch(e.words, S(e.verbs)) IN <<
  <<"verb-reached", d.run # "" => Len(e.started) = 1 /\ e.started[1].verb = d.run>>,
  <<"nothing-else-started", IF d.run = "" THEN e.started = <<>> ELSE Len(e.started) <= 1>>,
  <<"arguments-unchanged", (d.run # "" /\ Len(e.started) = 1) => e.started[1].args \in d.args>>,
  <<"same-surroundings", \A i \in DOMAIN e.started : e.started[i].same>>,
  <<"status-passed-on", e.raised = "" /\ StatusOk(d, e.want, e.status, Len(e.words))>>,
  <<"version-told", e.words = <<"--version">> => e.version>> >>
Cmd(e) == [given |-> S(e.cmd.given), gone |-> S(e.cmd.gone), survey |-> e.cmd.survey, eph |-> e.cmd.eph, lc |-> e.cmd.lc, ca |-> e.cmd.ca, cam |-> e.cmd.cam, shared |-> e.cmd.shared]
RunClauses(e) ==
  LET c == Cmd(e) IN <<
  <<"refused-when-wrong", Refused(c) => e.started = <<>> /\ e.status # 0>>,
  <<"started-when-right", ~Refused(c) => e.started = <<Surveys[c.survey]>> /\ e.status = 0 /\ e.raised = "">>,
  <<"each-option-its-setting", e.started # <<>> => \A o \in (Required \cup Optional) : e.set[o] = (IF o \in c.given THEN o ELSE Default(o))>>,
  <<"seed-as-given", e.started # <<>> => e.seed>> >>
FileClauses(e) == << <<"wrong-target-refused", ~e.asked => e.status # 0 /\ ~e.there>>,
                     <<"written-as-printed", e.asked => e.status = 0 /\ e.there /\ e.same>>,
                     <<"nothing-else-written", e.others = <<>> >> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "verb" -> Advance(Failing(VerbClauses(e)))
                  [] e.ev = "run" -> Advance(Failing(RunClauses(e)))
                  [] e.ev = "file" -> Advance(Failing(FileClauses(e)))
                  [] e.ev = "demo" -> Advance(Failing(<< <<"demo-command-works", e.status = 0 /\ e.started = <<"lsst">> >> >>))
                  [] e.ev = "refuse" -> Advance(Failing(<< <<"refusal-has-a-status", e.status # 0>> >>))
                  [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
