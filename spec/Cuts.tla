----------------------------- MODULE Cuts -----------------------------
(* The detection cuts as stages over the candidates of one chunk, taken in any order: whichever order, exactly the candidates within every enabled
   limit survive, a cut that is not configured removes nothing, and tightening a limit only removes.  Variant: a deliberately wrong stage. *)
EXTENDS CutRules, FiniteSets, TLC
CONSTANTS Rows, Variant, Lim, BrightLim
VARIABLES cand, conf, left, rows, draw
vars == <<cand, conf, left, rows, draw>>
V == 1..2
Cand == [ snr : V, mag : V, psf : V, f : V, sep : V, p : 0..2 ]
OffOr(S) == S \cup { Off }
Conf == [ snr : OffOr(Lim), mag : OffOr(Lim), circ : OffOr(Lim), deflt : OffOr({1}), bright : { <<>> } \cup { <<a, b>> : a, b \in BrightLim }, fade : BOOLEAN ]
Init == /\ cand \in [ 1..Rows -> Cand ]
        /\ conf \in Conf
        /\ left = Stages
        /\ rows = 1..Rows
        /\ draw = [ i \in 1..Rows |-> -1 ]
Wrong(s, r, d) == CASE Variant = "firstlimit" /\ s = "bright" -> conf.bright = <<>> \/ r.psf >= conf.bright[1]
                    [] Variant = "inclusive" /\ s = "snr" -> conf.snr = Off \/ r.snr >= conf.snr
                    [] OTHER -> Passes(s, r, conf, d)
Apply(s) ==
  /\ s \in left
  /\ left' = left \ {s}
  /\ IF s = "fade" /\ conf.fade
     THEN \E d \in [ rows -> 0..2 ] :
            /\ draw' = [ i \in 1..Rows |-> IF i \in rows THEN d[i] ELSE draw[i] ]
            /\ rows' = { i \in rows : Wrong(s, cand[i], d[i]) }
     ELSE /\ rows' = { i \in rows : Wrong(s, cand[i], -1) }
          /\ UNCHANGED draw
  /\ UNCHANGED <<cand, conf>>
Next == \E s \in left : Apply(s)
Spec == Init /\ [][Next]_vars
Exact == left = {} => \A i \in 1..Rows :
           IF i \in rows THEN Survives(cand[i], conf, draw[i])
           ELSE \E s \in Stages : ~Passes(s, cand[i], conf, draw[i])
Untouched == (conf.deflt = Off /\ conf.circ = Off /\ conf.snr = Off /\ conf.mag = Off /\ conf.bright = <<>> /\ ~conf.fade) => rows = 1..Rows
Certain == \A i \in 1..Rows : (conf.fade /\ "fade" \notin left /\ i \in rows) => cand[i].p >= draw[i]
=============================================================================
