----------------------------- MODULE Config -----------------------------
(* Configurations within Depth edits of a few base configurations: a key is set, changed or taken away; further edits stay with the section or one related to it.
   Every configuration reached is a scenario for the real reader.                                                                                          *)
EXTENDS ConfigRules, TLC, Json
CONSTANTS Depth, Emit, Variant, Cross
VARIABLES sv, c, sec, left, last
vars == <<sv, c, sec, left, last>>
Part(t, n, s) == [ t |-> t, n |-> n, s |-> s ]
V(t, n, s) == [ t |-> t, n |-> n, s |-> s, l |-> <<Part(t, n, s)>> ]
I(n, s) == V("int", 1000 * n, s)
R(n, s) == V("real", n, s)
W(s) == V("word", 0, s)
N == V("nan", 0, "nan")
X == W("x")
L(s, ps) == [ t |-> "word", n |-> 0, s |-> s, l |-> ps ]
Ws(s, ws) == L(s, [ i \in DOMAIN ws |-> Part("word", 0, ws[i]) ])
Bools == { W("True"), W("no"), X }
Q == W("SELECT * FROM observations")
Values(k) ==
  CASE k = "INPUT.ephemerides_type" -> { W("ar"), W("external"), W("assist") }
    [] k = "INPUT.eph_format" -> { W("csv"), W("whitespace"), W("hdf5"), W("comma") }
    [] k = "INPUT.size_serial_chunk" -> { I(1, "1"), I(1000, "1000"), I(0, "0"), I(-5, "-5"), R(2500, "2.5"), X }
    [] k = "INPUT.aux_format" -> { W("csv"), W("comma"), W("whitespace"), W("hdf5") }
    [] k = "INPUT.pointing_sql_query" -> { Q, W("SELECT * FROM observations WHERE note LIKE 'a%'") }
    [] k = "SIMULATION.ar_ang_fov" -> { R(2060, "2.06"), I(1, "1"), I(-1, "-1"), X, N }
    [] k = "SIMULATION.ar_fov_buffer" -> { R(200, "0.2"), I(0, "0"), X }
    [] k = "SIMULATION.ar_picket" -> { I(1, "1"), I(3, "3"), I(0, "0"), R(1500, "1.5"), X }
    [] k = "SIMULATION.ar_obs_code" -> { W("X05"), W("W84") }
    [] k = "SIMULATION.ar_healpix_order" -> { I(6, "6"), I(0, "0"), R(6500, "6.5"), X }
    [] k = "SIMULATION.ar_n_sub_intervals" -> { I(101, "101"), I(50, "50"), I(0, "0"), R(2500, "2.5"), X }
    [] k = "FILTERS.observing_filters" -> { W("r"), Ws("r,g,i", <<"r", "g", "i">>), Ws("g , r", <<"g", "r">>), Ws("u,g,y", <<"u", "g", "y">>), Ws("g,Y", <<"g", "Y">>), Ws("r,q", <<"r", "q">>),
                                            Ws("r,", <<"r", "">>), Ws("r,r", <<"r", "r">>), W("rg"), W("R") }
    [] k = "SATURATION.bright_limit" -> { R(16000, "16.0"), I(16, "16"), L("16.0, 16.1, 16.2", <<Part("real", 16000, "16.0"), Part("real", 16100, "16.1"), Part("real", 16200, "16.2")>>),
                                          L("16,17", <<Part("int", 16000, "16"), Part("int", 17000, "17")>>), X, L("16,x,17", <<Part("int", 16000, "16"), Part("word", 0, "x"), Part("int", 17000, "17")>>), N }
    [] k = "PHASECURVES.phase_function" -> { W("HG"), W("HG1G2"), W("HG12"), W("linear"), W("none"), W("hg") }
    [] k = "FOV.camera_model" -> { W("circle"), W("footprint"), W("visits_footprint"), W("none"), W("square") }
    [] k = "FOV.footprint_path" -> { W("@file"), W("@nofile") }
    [] k = "FOV.visits_query" -> { Q }
    [] k = "FOV.fill_factor" -> { R(500, "0.5"), I(0, "0"), I(1, "1"), R(1001, "1.001"), R(-1, "-0.001"), X, N }
    [] k = "FOV.circle_radius" -> { R(1750, "1.75"), I(0, "0"), R(-1, "-0.001"), X, N }
    [] k = "FOV.footprint_edge_threshold" -> { R(2000, "2."), I(0, "0"), X, N }
    [] k = "FADINGFUNCTION.fading_function_on" -> Bools
    [] k = "FADINGFUNCTION.fading_function_width" -> { R(100, "0.1"), R(500, ".5"), R(501, "0.501"), R(1, "0.001"), I(0, "0"), R(-100, "-0.1"), X, N }
    [] k = "FADINGFUNCTION.fading_function_peak_efficiency" -> { R(900, "0.9"), I(0, "0"), R(1000, "1."), R(1001, "1.001"), R(-1, "-0.001"), X, N }
    [] k = "FADINGFUNCTION.des_transient_efficency" -> { R(955, "0.955"), R(1500, "1.5"), X, N }
    [] k = "LINKINGFILTER.ssp_detection_efficiency" -> { R(950, "0.95"), I(0, "0"), I(1, "1"), R(1001, "1.001"), R(-1, "-0.001"), X, N }
    [] k = "LINKINGFILTER.ssp_number_observations" -> { I(2, "2"), I(1, "1"), I(0, "0"), R(1500, "1.5"), X }
    [] k = "LINKINGFILTER.ssp_separation_threshold" -> { R(500, "0.5"), I(0, "0"), R(-1, "-0.001"), X, N }
    [] k = "LINKINGFILTER.ssp_maximum_time" -> { R(63, "0.063"), I(0, "0"), R(-1, "-0.001"), X, N }
    [] k = "LINKINGFILTER.ssp_number_tracklets" -> { I(3, "3"), I(1, "1"), I(0, "0"), R(2500, "2.5"), X }
    [] k = "LINKINGFILTER.ssp_track_window" -> { I(15, "15"), I(1, "1"), I(0, "0"), R(15500, "15.5"), X }
    [] k = "LINKINGFILTER.ssp_night_start_utc" -> { R(16000, "16.0"), I(0, "0"), I(24, "24"), R(24001, "24.001"), R(-1, "-0.001"), X, N }
    [] k = "LINKINGFILTER.distance_cut_lower" -> { I(30, "30"), X }
    [] k = "LINKINGFILTER.distance_cut_upper" -> { I(90, "90"), X, N }
    [] k = "LINKINGFILTER.motion_cut_lower" -> { R(1, "0.001"), X }
    [] k = "LINKINGFILTER.motion_cut_upper" -> { I(0, "0"), R(30, "0.03"), X }
    [] k = "LINKINGFILTER.des_discovery_on" -> Bools
    [] k = "OUTPUT.output_format" -> { W("csv"), W("sqlite3"), W("hdf5"), W("json") }
    [] k = "OUTPUT.output_columns" -> { W("basic"), W("all"), Ws("ObjID, fieldMJD_TAI", <<"ObjID", "fieldMJD_TAI">>), W("ObjID"), Ws("ObjID,", <<"ObjID", "">>) }
    [] k \in {"OUTPUT.position_decimals", "OUTPUT.magnitude_decimals"} -> { I(0, "0"), I(7, "7"), I(-1, "-1"), R(2500, "2.5"), X }
    [] k \in {"LIGHTCURVE.lc_model", "ACTIVITY.comet_activity"} -> { W("none"), W("identity"), W("nosuch") }
    [] k \in {"EXPERT.snr_limit", "EXPERT.mag_limit"} -> { I(0, "0"), R(2000, "2.0"), R(-1, "-0.001"), X, N }
    [] k \in BoolKeys -> { W("True"), W("False"), V("int", 1000, "1"), V("int", 0, "0"), W("yes"), W("n"), X }
    [] OTHER -> { I(22, "22") }
Unknown == { "EXPERT.magnitude_limit", "FOV.radius", "INPUT.survey_name", "FILTERS.survey_name" }
SecOf == [ k \in Keys \cup Unknown |-> CHOOSE s \in {"INPUT", "SIMULATION", "FILTERS", "SATURATION", "PHASECURVES", "FOV", "FADINGFUNCTION", "LINKINGFILTER", "OUTPUT", "LIGHTCURVE", "ACTIVITY",
                                                     "EXPERT"} : \E n \in 1..40 : n <= Len(k) /\ SubSeq(k, 1, n) = s \o "." ]
Related(a, b) == a = b \/ {a, b} \in { {"INPUT", "SIMULATION"}, {"FILTERS", "SATURATION"}, {"LIGHTCURVE", "ACTIVITY"} } \cup Cross
Minimal == [ k \in Mandatory |-> CASE k = "INPUT.ephemerides_type" -> W("external") [] k = "INPUT.eph_format" -> W("csv") [] k = "INPUT.size_serial_chunk" -> I(1000, "1000")
             [] k = "INPUT.aux_format" -> W("csv") [] k = "INPUT.pointing_sql_query" -> Q [] k = "FILTERS.observing_filters" -> Ws("r,g,i", <<"r", "g", "i">>)
             [] k = "PHASECURVES.phase_function" -> W("HG") [] k = "FOV.camera_model" -> W("none") [] k = "OUTPUT.output_format" -> W("csv") [] OTHER -> W("all") ]
Gen == ( "SIMULATION.ar_ang_fov" :> R(2060, "2.06") @@ "SIMULATION.ar_fov_buffer" :> R(200, "0.2") @@ "SIMULATION.ar_picket" :> I(1, "1") @@ "SIMULATION.ar_obs_code" :> W("X05")
         @@ "SIMULATION.ar_healpix_order" :> I(6, "6") @@ "INPUT.ephemerides_type" :> W("ar") )
Link == ( "LINKINGFILTER.ssp_detection_efficiency" :> R(950, "0.95") @@ "LINKINGFILTER.ssp_number_observations" :> I(2, "2") @@ "LINKINGFILTER.ssp_separation_threshold" :> R(500, "0.5")
          @@ "LINKINGFILTER.ssp_maximum_time" :> R(63, "0.063") @@ "LINKINGFILTER.ssp_number_tracklets" :> I(3, "3") @@ "LINKINGFILTER.ssp_track_window" :> I(15, "15")
          @@ "LINKINGFILTER.ssp_night_start_utc" :> R(16000, "16.0") )
Fade == "FADINGFUNCTION.fading_function_width" :> R(100, "0.1") @@ "FADINGFUNCTION.fading_function_peak_efficiency" :> R(1000, "1.")
Circle == "FOV.camera_model" :> W("circle") @@ "FOV.circle_radius" :> R(1750, "1.75")
Sat == "SATURATION.bright_limit" :> R(16000, "16.0")
Bases == { <<"rubin_sim", Minimal>>,
           <<"rubin_sim", Link @@ Fade @@ Gen @@ Sat @@ ("FOV.camera_model" :> W("footprint")) @@ Minimal>>,
           <<"rubin_sim", Circle @@ Sat @@ ("EXPERT.mag_limit" :> R(2000, "2.0")) @@ Minimal>>,
           <<"DES", ("FADINGFUNCTION.fading_function_on" :> W("True")) @@ ("FOV.camera_model" :> W("visits_footprint")) @@ ("FOV.visits_query" :> Q) @@ Gen @@ Minimal>>,
           <<"DES", ("FADINGFUNCTION.fading_function_on" :> W("no")) @@ ("FOV.camera_model" :> W("footprint")) @@ ("LINKINGFILTER.des_discovery_on" :> W("True")) @@ ("LINKINGFILTER.distance_cut_lower" :> I(30, "30"))
                    @@ ("LINKINGFILTER.distance_cut_upper" :> I(90, "90")) @@ Minimal>> }
Verd(x) == IF Variant = "simulation" /\ ~\E k \in DOMAIN x : SecOf[k] = "SIMULATION" THEN "refused"
           ELSE IF Variant = "nan" /\ Broken([ k \in DOMAIN x |-> IF x[k].t = "nan" THEN R(100, "0.1") ELSE x[k] ], sv) = {} THEN "accepted" ELSE Verdict(x, sv)
Init == \E b \in Bases : sv = b[1] /\ c = b[2] /\ sec = "" /\ left = Depth /\ last = "base"
Cut(f, k) == [ x \in DOMAIN f \ {k} |-> f[x] ]
Edit(k) == /\ left > 0 /\ (sec = "" \/ Related(sec, SecOf[k]))
           /\ \/ \E v \in Values(k) : (IF G(c, k) THEN c[k] # v ELSE TRUE) /\ c' = (k :> v) @@ c
              \/ G(c, k) /\ c' = Cut(c, k)
           /\ sec' = SecOf[k] /\ left' = left - 1 /\ last' = Verd(c) /\ UNCHANGED sv
Next == \E k \in Keys \cup Unknown : Edit(k)
Spec == Init /\ [][Next]_vars
(* the scenarios *)
Short == [ k \in DOMAIN c |-> c[k].s ]
Tell == Emit => PrintT("SCN " \o ToJson([ sv |-> sv, c |-> Short, v |-> Verdict(c, sv), b |-> Broken(c, sv) ]))
(* an accepted configuration stays accepted without an optional section; what is accepted lies in range; a mandatory key is mandatory; unknown keys are refused *)
Optional == {"SATURATION", "LIGHTCURVE", "ACTIVITY", "EXPERT"} \cup (IF External(c) THEN {"SIMULATION"} ELSE {}) \cup (IF sv = "DES" THEN {"LINKINGFILTER"} ELSE {"FADINGFUNCTION", "LINKINGFILTER"})
Without(s) == [ k \in { x \in DOMAIN c : SecOf[x] # s } |-> c[k] ]
OptionalOff == Verd(c) = "accepted" => \A s \in Optional : Verd(Without(s)) = "accepted"
InRange == Verd(c) = "accepted" => /\ DOMAIN c \subseteq Keys /\ Mandatory \subseteq DOMAIN c
                                   /\ \A k \in DOMAIN c : c[k].t # "nan" /\ (k \in IntKeys \cup RealKeys => c[k].t \in {"int", "real"} /\ c[k].n >= 0)
Needed == Verd(c) = "accepted" => \A k \in Mandatory : Verd(Cut(c, k)) = "refused"
Partly == Verd(c) = "accepted" => \A k \in Ssp : G(c, k) => Verd(Cut(c, k)) = "refused"
BasesHold == left = Depth => Verd(c) = "accepted"
=============================================================================
