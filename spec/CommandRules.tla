---------------------------- MODULE CommandRules ----------------------------
(* The command line. `sorcha VERB ARGS` starts the program of that verb with these arguments; `sorcha run` turns its options into the settings of a run and starts the
   simulation of the chosen survey, or refuses.                                                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
(* ---- verbs: what a list of words after `sorcha` must do ---- *)
\* run: the verb started, "" for none; args: what it may be given; ok: whether the words are right
Dispatch(words, verbs) ==
  IF words = <<>> THEN [run |-> "", args |-> {}, ok |-> FALSE]
  ELSE IF Head(words) \in verbs
       THEN [run |-> Head(words), ok |-> TRUE,
             args |-> {Tail(words)} \cup (IF Tail(words) # <<>> /\ words[2] = "--" THEN {Tail(Tail(words))} ELSE {})]  \* (a leading -- may be taken as the end of sorcha's own options)
       ELSE [run |-> "", args |-> {}, ok |-> \E i \in DOMAIN words : words[i] \in {"-h", "--help", "--version"}]
\* the exit status, given that of the verb's program (none: -1; ended by a signal: 999)
StatusOk(d, verb, status, n) == IF d.run = "" THEN (IF d.ok THEN n > 1 \/ status = 0 ELSE status # 0)  \* (what stands beside --help or --version is nobody's business)
                             ELSE IF verb = 999 THEN status # 0 ELSE status = verb
(* ---- sorcha run ---- *)
Required == {"c", "o", "ob", "p", "pd"}
Optional == {"er", "ew", "ar", "cp", "s", "t", "st", "vd"}
Inputs == {"c", "o", "ob", "p", "pd", "er", "ar", "cp", "vd"}     \* what must exist
\* cmd: given (options given), gone (options whose file does not exist), survey, eph ("external"/"ar"), lc, ca (a model is asked for), cam (camera model), shared (two outputs in one file)
Surveys == [rubin_sim |-> "lsst", RUBIN_SIM |-> "lsst", DES |-> "des", des |-> "des"]
Refused(cmd) == \/ Required \ cmd.given # {}
                \/ cmd.gone \cap cmd.given # {}
                \/ cmd.eph = "external" /\ "er" \notin cmd.given
                \/ (cmd.lc \/ cmd.ca) /\ "cp" \notin cmd.given
                \/ (cmd.cam = "visits_footprint") # ("vd" \in cmd.given)
                \/ cmd.survey \notin DOMAIN Surveys
                \/ cmd.cam = "visits_footprint" /\ cmd.survey \notin {"DES", "des"}
                \/ cmd.shared
\* every option sets its own setting; those not given have their defaults
Default(o) == CASE o = "t" -> "SSPPOutput" [] o = "s" -> "rubin_sim" [] OTHER -> ""
=============================================================================
