----------------------------- MODULE CutRules -----------------------------
(* The cuts on single candidates.  A candidate: snr, mag (measured), psf (measured point-source magnitude), f (index of its filter), sep (distance
   from its field centre), p (probability of detection).  Values are whole numbers that compare as the real ones do.
   A configuration: snr, mag, circ (a limit, or Off), deflt (the default signal-to-noise limit, or Off), bright (a sequence with the limit of each
   filter, empty when off), fade (whether the detection efficiency applies).                                             *)
EXTENDS Integers, Sequences
Off == -1999999999
Stages == { "deflt", "circ", "snr", "mag", "fade", "bright" }
\* draw: the number drawn for the candidate, when one is
Passes(s, r, c, draw) ==
  CASE s = "deflt"  -> c.deflt = Off \/ r.snr > c.deflt
    [] s = "circ"   -> c.circ = Off \/ r.sep < c.circ
    [] s = "snr"    -> c.snr = Off \/ r.snr > c.snr
    [] s = "mag"    -> c.mag = Off \/ r.mag < c.mag
    [] s = "bright" -> c.bright = <<>> \/ r.psf >= c.bright[r.f]
    [] s = "fade"   -> (~c.fade) \/ r.p >= draw
Survives(r, c, draw) == \A s \in Stages : Passes(s, r, c, draw)
=============================================================================
