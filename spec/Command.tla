------------------------------- MODULE Command -------------------------------
(* `sorcha run`: the words of the command line are read one after the other, in any order; then the run is checked and the simulation of the survey started.
   Variants (contrast): "swap": the options of the statistics and of the ephemeris file set each other's; "last": what comes after -s is forgotten;
   "nocomplex": no complete check for the complex parameters; "anysurvey": a survey that is not known gets the default one; "visits": a visits database is
   only missed when the camera needs it, not refused when it does not; "unchecked": optional files are not looked for.                                        *)
EXTENDS CommandRules, TLC, Json
CONSTANTS Variant
VARIABLES cmd, left, set, out
vars == <<cmd, left, set, out>>
Opts == {"er", "cp", "st", "ew", "vd", "s"}
Init == /\ \E g \in SUBSET Opts, lacks \in {{}, {"ob"}}, go \in {{}, {"er"}, {"cp"}, {"p"}}, sv \in {"rubin_sim", "DES", "LSST", "nosuch"}, e \in {"external", "ar"}, m \in {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>},
                c \in {"circle", "visits_footprint"} :
             /\ go \subseteq g \cup {"p"}
             /\ Cardinality(lacks) + Cardinality(go) <= 1
             /\ cmd = [given |-> g \cup (Required \ lacks), gone |-> go, survey |-> IF "s" \in g THEN sv ELSE "rubin_sim", eph |-> e, lc |-> m[1], ca |-> m[2], cam |-> c, shared |-> FALSE]
             /\ ("s" \notin g => sv = "rubin_sim")
        /\ left = cmd.given \cap Opts
        /\ set = [o \in Opts |-> ""]
        /\ out = "reading"
Target(o) == IF Variant = "swap" /\ o = "st" THEN "ew" ELSE IF Variant = "swap" /\ o = "ew" THEN "st" ELSE o
Read == /\ out = "reading" /\ left # {}
        /\ \E o \in left : /\ left' = (IF Variant = "last" /\ o = "s" THEN {} ELSE left \ {o})
                           /\ set' = [set EXCEPT ![Target(o)] = o]
        /\ UNCHANGED <<cmd, out>>
Bad == \/ Required \ cmd.given # {}
       \/ \E o \in cmd.gone : o \in Required \/ (set[o] # "" /\ Variant # "unchecked")
       \/ cmd.eph = "external" /\ set["er"] = ""
       \/ (cmd.lc \/ (cmd.ca /\ Variant # "nocomplex")) /\ set["cp"] = ""
       \/ IF Variant = "visits" THEN cmd.cam = "visits_footprint" /\ set["vd"] = "" ELSE (cmd.cam = "visits_footprint") # (set["vd"] # "")
       \/ cmd.cam = "visits_footprint" /\ cmd.survey # "DES"
       \/ Variant # "anysurvey" /\ cmd.survey \notin DOMAIN Surveys
Decide == /\ out = "reading" /\ left = {}
          /\ out' = (IF Bad THEN "refused" ELSE IF cmd.survey \in DOMAIN Surveys THEN Surveys[cmd.survey] ELSE "lsst")
          /\ UNCHANGED <<cmd, left, set>>
Next == Read \/ Decide
Spec == Init /\ [][Next]_vars
TypeOK == out \in {"reading", "refused", "lsst", "des"} /\ left \subseteq Opts
RefusedIffWrong == out # "reading" => ((out = "refused") <=> Refused(cmd))
RightSimulation == out \in {"lsst", "des"} => out = Surveys[cmd.survey]
SettingsAreThoseGiven == out \in {"lsst", "des"} => \A o \in Opts : set[o] = (IF o \in cmd.given THEN o ELSE "")
Emit == (out # "reading") => PrintT("SCN " \o ToJson(cmd))
=============================================================================
