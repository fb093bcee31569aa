----------------------------- MODULE ConfigRules -----------------------------
(* What a configuration means.  A configuration is a record from "SECTION.key" to a value as written:
   t "int" / "real" / "nan" / "word", n its size in thousandths (numbers), s the text, l its comma separated parts (values again, without l).
   "@file" stands for a file that exists, "@nofile" for one that does not.  The survey is "rubin_sim" or "DES".                           *)
EXTENDS Integers, Sequences, FiniteSets
G(c, k) == k \in DOMAIN c
Text(c, k) == IF G(c, k) THEN c[k].s ELSE ""
IsInt(v) == v.t = "int"
IsReal(v) == v.t \in {"int", "real"}
True == {"true", "1", "yes", "y", "True"}
False == {"false", "0", "no", "n", "False"}
IsBool(v) == v.s \in True \cup False

Ssp == { "LINKINGFILTER." \o x : x \in { "ssp_detection_efficiency", "ssp_number_observations", "ssp_separation_threshold", "ssp_maximum_time", "ssp_number_tracklets",
                                         "ssp_track_window", "ssp_night_start_utc" } }
Ar == { "SIMULATION.ar_ang_fov", "SIMULATION.ar_fov_buffer", "SIMULATION.ar_picket", "SIMULATION.ar_obs_code", "SIMULATION.ar_healpix_order" }
IntKeys == { "INPUT.size_serial_chunk", "SIMULATION.ar_picket", "SIMULATION.ar_healpix_order", "SIMULATION.ar_n_sub_intervals", "LINKINGFILTER.ssp_number_observations",
             "LINKINGFILTER.ssp_number_tracklets", "LINKINGFILTER.ssp_track_window", "OUTPUT.position_decimals", "OUTPUT.magnitude_decimals" }
RealKeys == { "SIMULATION.ar_ang_fov", "SIMULATION.ar_fov_buffer", "FOV.fill_factor", "FOV.circle_radius", "FOV.footprint_edge_threshold", "FADINGFUNCTION.fading_function_width",
              "FADINGFUNCTION.fading_function_peak_efficiency", "FADINGFUNCTION.des_transient_efficency", "LINKINGFILTER.ssp_detection_efficiency",
              "LINKINGFILTER.ssp_separation_threshold", "LINKINGFILTER.ssp_maximum_time", "LINKINGFILTER.ssp_night_start_utc", "LINKINGFILTER.distance_cut_lower",
              "LINKINGFILTER.distance_cut_upper", "LINKINGFILTER.motion_cut_lower", "LINKINGFILTER.motion_cut_upper", "EXPERT.snr_limit", "EXPERT.mag_limit" }
BoolKeys == { "EXPERT.default_snr_cut", "EXPERT.randomization_on", "EXPERT.vignetting_on", "EXPERT.trailing_losses_on", "EXPERT.brute_force", "LINKINGFILTER.drop_unlinked" }
WordKeys == { "INPUT.ephemerides_type", "INPUT.eph_format", "INPUT.aux_format", "INPUT.pointing_sql_query", "SIMULATION.ar_obs_code", "PHASECURVES.phase_function",
              "FOV.camera_model", "FOV.footprint_path", "FOV.visits_query", "OUTPUT.output_format" }
OtherKeys == { "FILTERS.observing_filters", "SATURATION.bright_limit", "OUTPUT.output_columns", "FADINGFUNCTION.fading_function_on", "LINKINGFILTER.des_discovery_on",
               "LIGHTCURVE.lc_model", "ACTIVITY.comet_activity" }
Keys == IntKeys \cup RealKeys \cup BoolKeys \cup WordKeys \cup OtherKeys
Mandatory == { "INPUT.ephemerides_type", "INPUT.eph_format", "INPUT.size_serial_chunk", "INPUT.aux_format", "INPUT.pointing_sql_query", "FILTERS.observing_filters",
               "PHASECURVES.phase_function", "FOV.camera_model", "OUTPUT.output_format", "OUTPUT.output_columns" }
Filters(sv) == IF sv = "DES" THEN {"g", "r", "i", "z", "Y"} ELSE {"u", "g", "r", "i", "z", "y"}
Models == {"none", "identity"}

In(c, k, S) == ~G(c, k) \/ c[k].s \in S
AtLeast(c, k, n) == G(c, k) /\ IsReal(c[k]) => c[k].n >= n
AtMost(c, k, n) == G(c, k) /\ IsReal(c[k]) => c[k].n <= n
Num(c, k) == G(c, k) => IF k \in IntKeys THEN IsInt(c[k]) ELSE IsReal(c[k])
Truth(c, k) == G(c, k) => IsBool(c[k])

Camera(c) == Text(c, "FOV.camera_model")
Generated(c) == Text(c, "INPUT.ephemerides_type") = "ar"
External(c) == Text(c, "INPUT.ephemerides_type") = "external"

Limit(p) == IsReal(p)
(* the demands on every configuration, by name *)
Demands(c, sv) ==
  << <<"mandatory", Mandatory \subseteq DOMAIN c>>,
     <<"ephemerides-type", In(c, "INPUT.ephemerides_type", {"ar", "external"})>>,
     <<"eph-format", In(c, "INPUT.eph_format", {"csv", "whitespace", "hdf5"})>>,
     <<"aux-format", In(c, "INPUT.aux_format", {"comma", "whitespace", "csv"})>>,
     <<"chunk", Num(c, "INPUT.size_serial_chunk") /\ AtLeast(c, "INPUT.size_serial_chunk", 1000)>>,
     <<"generation-settings", Generated(c) => Ar \subseteq DOMAIN c /\ \A k \in Ar \cup {"SIMULATION.ar_n_sub_intervals"} : k = "SIMULATION.ar_obs_code" \/ Num(c, k)>>,
     <<"no-generation-settings", External(c) => Ar \cap DOMAIN c = {}>>,
     <<"filters", G(c, "FILTERS.observing_filters") => \A i \in DOMAIN c["FILTERS.observing_filters"].l : c["FILTERS.observing_filters"].l[i].s \in Filters(sv)>>,
     <<"saturation", G(c, "SATURATION.bright_limit") =>
          LET b == c["SATURATION.bright_limit"].l IN
          /\ \A i \in DOMAIN b : Limit(b[i])
          /\ Len(b) = 1 \/ ~G(c, "FILTERS.observing_filters") \/ Len(b) = Len(c["FILTERS.observing_filters"].l)>>,
     <<"phase-function", In(c, "PHASECURVES.phase_function", {"HG", "HG1G2", "HG12", "linear", "none"})>>,
     <<"camera", In(c, "FOV.camera_model", {"circle", "footprint", "visits_footprint", "none"})>>,
     <<"footprint", Camera(c) = "footprint" => /\ {"FOV.visits_query", "FOV.fill_factor", "FOV.circle_radius"} \cap DOMAIN c = {}
                                               /\ Text(c, "FOV.footprint_path") # "@nofile"
                                               /\ Num(c, "FOV.footprint_edge_threshold")>>,
     <<"visits-footprint", Camera(c) = "visits_footprint" => /\ sv = "DES" /\ G(c, "FOV.visits_query")
                                                             /\ {"FOV.footprint_edge_threshold", "FOV.fill_factor", "FOV.circle_radius"} \cap DOMAIN c = {}>>,
     <<"circle", Camera(c) = "circle" => /\ {"FOV.fill_factor", "FOV.circle_radius"} \cap DOMAIN c # {}
                                         /\ Num(c, "FOV.fill_factor") /\ AtLeast(c, "FOV.fill_factor", 0) /\ AtMost(c, "FOV.fill_factor", 1000)
                                         /\ Num(c, "FOV.circle_radius") /\ AtLeast(c, "FOV.circle_radius", 0)
                                         /\ ~G(c, "FOV.footprint_edge_threshold")>>,
     <<"fading", sv # "DES" =>
          LET w == "FADINGFUNCTION.fading_function_width"  p == "FADINGFUNCTION.fading_function_peak_efficiency" IN
          /\ G(c, w) <=> G(c, p)
          /\ Num(c, w) /\ Num(c, p) /\ AtLeast(c, w, 1) /\ AtMost(c, w, 500) /\ AtLeast(c, p, 0) /\ AtMost(c, p, 1000)>>,
     <<"des-fading", sv = "DES" =>
          /\ {"FADINGFUNCTION.fading_function_width", "FADINGFUNCTION.fading_function_peak_efficiency"} \cap DOMAIN c = {}
          /\ G(c, "FADINGFUNCTION.fading_function_on") /\ Truth(c, "FADINGFUNCTION.fading_function_on")
          /\ Text(c, "FADINGFUNCTION.fading_function_on") \in True => Num(c, "FADINGFUNCTION.des_transient_efficency")>>,
     <<"linking", /\ Ssp \subseteq DOMAIN c \/ Ssp \cap DOMAIN c = {}
                  /\ sv = "DES" => Ssp \cap DOMAIN c = {}>>,
     <<"linking-values", sv # "DES" /\ Ssp \subseteq DOMAIN c =>
          LET n == "LINKINGFILTER.ssp_number_observations"  s == "LINKINGFILTER.ssp_separation_threshold" IN
          /\ \A k \in Ssp : Num(c, k)
          /\ AtLeast(c, n, 1000) /\ AtLeast(c, s, 0) /\ (IsInt(c[n]) /\ c[n].n > 1000 => AtLeast(c, s, 1))
          /\ AtLeast(c, "LINKINGFILTER.ssp_number_tracklets", 1000) /\ AtLeast(c, "LINKINGFILTER.ssp_track_window", 1000)
          /\ AtLeast(c, "LINKINGFILTER.ssp_detection_efficiency", 0) /\ AtMost(c, "LINKINGFILTER.ssp_detection_efficiency", 1000)
          /\ AtLeast(c, "LINKINGFILTER.ssp_maximum_time", 0)
          /\ AtLeast(c, "LINKINGFILTER.ssp_night_start_utc", 0) /\ AtMost(c, "LINKINGFILTER.ssp_night_start_utc", 24000)>>,
     <<"drop-unlinked", Truth(c, "LINKINGFILTER.drop_unlinked")>>,
     <<"des-discovery", sv = "DES" => Truth(c, "LINKINGFILTER.des_discovery_on")>>,
     <<"cuts", \A x \in {"LINKINGFILTER.distance_cut", "LINKINGFILTER.motion_cut"} :
          LET a == x \o "_lower"  b == x \o "_upper" IN (G(c, a) <=> G(c, b)) /\ Num(c, a) /\ Num(c, b) /\ (G(c, a) => sv = "DES")>>,
     <<"output-format", In(c, "OUTPUT.output_format", {"csv", "sqlite3", "hdf5"})>>,
     <<"output-columns", G(c, "OUTPUT.output_columns") /\ Len(c["OUTPUT.output_columns"].l) = 1 => c["OUTPUT.output_columns"].s \in {"basic", "all"}>>,
     <<"decimals", \A k \in {"OUTPUT.position_decimals", "OUTPUT.magnitude_decimals"} : Num(c, k) /\ AtLeast(c, k, 0)>>,
     <<"models", In(c, "LIGHTCURVE.lc_model", Models) /\ In(c, "ACTIVITY.comet_activity", Models)>>,
     <<"limits", /\ \A k \in {"EXPERT.snr_limit", "EXPERT.mag_limit"} : Num(c, k) /\ AtLeast(c, k, 0)
                 /\ ~(G(c, "EXPERT.snr_limit") /\ G(c, "EXPERT.mag_limit"))>>,
     <<"switches", \A k \in {"EXPERT.default_snr_cut", "EXPERT.brute_force", "EXPERT.randomization_on", "EXPERT.vignetting_on", "EXPERT.trailing_losses_on"} : Truth(c, k)>>,
     <<"des-switches", sv = "DES" => \A k \in {"EXPERT.randomization_on", "EXPERT.vignetting_on", "EXPERT.trailing_losses_on"} : Text(c, k) \notin True>>,
     <<"des-no-snr", sv = "DES" => ~G(c, "EXPERT.snr_limit")>>,
     <<"known-keys", DOMAIN c \subseteq Keys>> >>
Broken(c, sv) == { Demands(c, sv)[i][1] : i \in { j \in DOMAIN Demands(c, sv) : ~Demands(c, sv)[j][2] } }

(* configurations the documentation says nothing about: accepted or refused, but never answered by a failure *)
Positive(c, k, n) == G(c, k) /\ IsReal(c[k]) => c[k].n >= n
Open(c, sv) ==
  \/ External(c) /\ G(c, "SIMULATION.ar_n_sub_intervals")
  \/ Generated(c) /\ ~(/\ Positive(c, "SIMULATION.ar_ang_fov", 1) /\ Positive(c, "SIMULATION.ar_fov_buffer", 0) /\ Positive(c, "SIMULATION.ar_picket", 1000)
                       /\ Positive(c, "SIMULATION.ar_healpix_order", 0) /\ Positive(c, "SIMULATION.ar_n_sub_intervals", 2000))
  \/ Camera(c) = "circle" /\ {"FOV.footprint_path", "FOV.visits_query"} \cap DOMAIN c # {}
  \/ Camera(c) = "visits_footprint" /\ G(c, "FOV.footprint_path")
  \/ Camera(c) = "none" /\ { "FOV.footprint_path", "FOV.visits_query", "FOV.fill_factor", "FOV.circle_radius", "FOV.footprint_edge_threshold" } \cap DOMAIN c # {}
  \/ AtMost(c, "FOV.footprint_edge_threshold", -1) /\ G(c, "FOV.footprint_edge_threshold")
  \/ sv # "DES" /\ { "FADINGFUNCTION.fading_function_on", "FADINGFUNCTION.des_transient_efficency", "LINKINGFILTER.des_discovery_on" } \cap DOMAIN c # {}
  \/ sv = "DES" /\ G(c, "FADINGFUNCTION.des_transient_efficency") /\ (Text(c, "FADINGFUNCTION.fading_function_on") \in False \/ ~AtMost(c, "FADINGFUNCTION.des_transient_efficency", 1000)
                                                                      \/ ~AtLeast(c, "FADINGFUNCTION.des_transient_efficency", 0))
  \/ \E k \in DOMAIN c : c[k].s = ""
  \/ G(c, "OUTPUT.output_columns") /\ \E i \in DOMAIN c["OUTPUT.output_columns"].l : c["OUTPUT.output_columns"].l[i].s = ""
  \/ G(c, "FILTERS.observing_filters") /\ \E i, j \in DOMAIN c["FILTERS.observing_filters"].l : i # j /\ c["FILTERS.observing_filters"].l[i].s = c["FILTERS.observing_filters"].l[j].s
Verdict(c, sv) == IF Broken(c, sv) # {} THEN "refused" ELSE IF Open(c, sv) THEN "open" ELSE "accepted"

(* what an accepted configuration makes of keys that are absent: text of the value ("" for none) *)
Default(c, sv, k) ==
  CASE k \in {"EXPERT.randomization_on", "EXPERT.vignetting_on", "EXPERT.trailing_losses_on"} -> IF sv = "DES" THEN "False" ELSE "True"
    [] k \in {"EXPERT.default_snr_cut", "EXPERT.brute_force", "LINKINGFILTER.drop_unlinked"} -> "True"
    [] k = "SIMULATION.ar_n_sub_intervals" -> "101"
    [] k = "FADINGFUNCTION.fading_function_on" -> IF G(c, "FADINGFUNCTION.fading_function_width") THEN "True" ELSE "False"
    [] k = "FADINGFUNCTION.des_transient_efficency" -> IF Text(c, "FADINGFUNCTION.fading_function_on") \in True THEN "1" ELSE ""
    [] OTHER -> ""
Seq1(s) == { s[i] : i \in DOMAIN s }
(* v: the value the code holds for key k of the accepted configuration c: t, n, s, l as above (absent: t "none", s "") *)
Kept(c, sv, k, v) ==
  CASE ~G(c, k) -> v.s = Default(c, sv, k) \/ (Default(c, sv, k) = "False" /\ v.t = "none")
    [] k \in {"LIGHTCURVE.lc_model", "ACTIVITY.comet_activity"} -> IF c[k].s = "none" THEN v.t = "none" ELSE v.s = c[k].s
    [] k \in IntKeys -> v.t = "int" /\ v.n = c[k].n
    [] k \in RealKeys -> v.t \in {"int", "real"} /\ v.n = c[k].n
    [] k \in BoolKeys \cup {"FADINGFUNCTION.fading_function_on", "LINKINGFILTER.des_discovery_on"} -> v.s = IF c[k].s \in True THEN "True" ELSE "False"
    [] k \in WordKeys -> v.s = c[k].s
    [] k = "FILTERS.observing_filters" -> Len(v.l) = Len(c[k].l) /\ \A i \in DOMAIN v.l : v.l[i].s = c[k].l[i].s
    [] k = "SATURATION.bright_limit" -> /\ Len(v.l) = Len(c["FILTERS.observing_filters"].l)
                                        /\ \A i \in DOMAIN v.l : v.l[i].n = c[k].l[IF Len(c[k].l) = 1 THEN 1 ELSE i].n
    [] k = "OUTPUT.output_columns" -> IF Len(c[k].l) = 1 THEN v.s = c[k].s ELSE Len(v.l) = Len(c[k].l) /\ \A i \in DOMAIN v.l : v.l[i].s = c[k].l[i].s
    [] OTHER -> TRUE
(* and the parts of the simulation it switches on *)
Parts(c, sv) == [ saturation |-> G(c, "SATURATION.bright_limit"), linking |-> Ssp \subseteq DOMAIN c, snr |-> G(c, "EXPERT.snr_limit"), mag |-> G(c, "EXPERT.mag_limit"),
                  distance |-> G(c, "LINKINGFILTER.distance_cut_lower"), motion |-> G(c, "LINKINGFILTER.motion_cut_lower"),
                  fading |-> IF sv = "DES" THEN Text(c, "FADINGFUNCTION.fading_function_on") \in True ELSE G(c, "FADINGFUNCTION.fading_function_width"),
                  discovery |-> Text(c, "LINKINGFILTER.des_discovery_on") \in True ]
=============================================================================
