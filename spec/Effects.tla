----------------------------- MODULE Effects -----------------------------
(* How the stages of a run compute the columns of one detection, as symbolic terms over what they read, for two runs that differ in which effects are
   on.  Checked: equalities of effects that are off, and that two runs differ only in columns governed by the effects they differ in.
   Variant: a deliberately wrong stage.                                                                       *)
EXTENDS EffectRules, TLC
CONSTANT Variant
VARIABLES on, col, pc
vars == <<on, col, pc>>
Inputs == { "ObjID", "FieldID", "optFilter", "fieldFiveSigmaDepth_mag", "seeing", "rates", "phase", "trailedSourceMagTrue", "RATrue_deg", "DecTrue_deg" }
In(x) == <<"in", x>>
Start == [ c \in Inputs |-> In(c) ]
Set(r, c, v) == [ x \in DOMAIN r \cup {c} |-> IF x = c THEN v ELSE r[x] ]
Trail(r, S) == Set(r, "PSFMagTrue", IF "trail" \in S THEN <<"psf-loss", r["trailedSourceMagTrue"], r["rates"], r["seeing"]>> ELSE r["trailedSourceMagTrue"])
Vig(r, S) == LET base == IF Variant = "vigdepth" /\ "vig" \in S THEN Set(r, "fieldFiveSigmaDepth_mag", <<"lowered">>) ELSE r
             IN Set(base, "fiveSigmaDepth_mag", IF "vig" \in S THEN <<"minus", base["fieldFiveSigmaDepth_mag"], <<"off-axis", r["RATrue_deg"], r["DecTrue_deg"]>>>> ELSE base["fieldFiveSigmaDepth_mag"])
Unc(r, S) ==
  LET t == <<"snr", IF "trail" \in S THEN <<"trail-loss", r["trailedSourceMagTrue"], r["rates"], r["seeing"]>> ELSE r["trailedSourceMagTrue"], r["fiveSigmaDepth_mag"]>>
      p == <<"snr", r["PSFMagTrue"], r["fiveSigmaDepth_mag"]>>
      a == Set(Set(r, "SNRTrailedSourceMag", t), "SNRPSFMag", p)
      b == Set(Set(a, "trailedSourceMagSigma", <<"sigma", t>>), "PSFMagSigma", <<"sigma", p>>)
  IN Set(b, "astrometricSigma_deg", <<"astrometric", t, r["seeing"]>>)
Rand(r, S) ==
  LET N(true, sig, k) == <<"normal", true, sig, <<"draw", k>>>>
      on2 == IF Variant = "psfdraw" THEN S \cup {"trail"} ELSE S
  IN IF "rand" \in S
     THEN LET a == Set(r, "trailedSourceMag", N(r["trailedSourceMagTrue"], r["trailedSourceMagSigma"], <<"1">>))
              b == Set(a, "PSFMag", IF "trail" \in on2 THEN N(r["PSFMagTrue"], r["PSFMagSigma"], <<"2">>) ELSE a["trailedSourceMag"])
              k == IF "trail" \in on2 THEN <<"3">> ELSE <<"2">>
          IN Set(Set(b, "RA_deg", N(r["RATrue_deg"], r["astrometricSigma_deg"], k)), "Dec_deg", N(r["DecTrue_deg"], r["astrometricSigma_deg"], k))
     ELSE LET a == Set(Set(r, "trailedSourceMag", r["trailedSourceMagTrue"]), "PSFMag", r["PSFMagTrue"])
          IN Set(Set(a, "RA_deg", r["RATrue_deg"]), "Dec_deg", r["DecTrue_deg"])
Init == /\ on \in [ {1, 2} -> SUBSET Effects ]
        /\ col = [ k \in {1, 2} |-> Start ]
        /\ pc = [ k \in {1, 2} |-> 0 ]
Do(k, n, F(_, _)) == pc[k] = n /\ col' = [ col EXCEPT ![k] = F(col[k], on[k]) ] /\ pc' = [ pc EXCEPT ![k] = n + 1 ] /\ UNCHANGED on
Trailing == \E k \in {1, 2} : Do(k, 0, Trail)
Vignetting == \E k \in {1, 2} : Do(k, 1, Vig)
Uncertainties == \E k \in {1, 2} : Do(k, 2, Unc)
Randomization == \E k \in {1, 2} : Do(k, 3, Rand)
Next == Trailing \/ Vignetting \/ Uncertainties \/ Randomization
Spec == Init /\ [][Next]_vars
Done(k) == pc[k] = 4
OffIsEqual == \A k \in {1, 2} : Done(k) => \A p \in Equal(on[k]) : col[k][p[1]] = col[k][p[2]]
OnlyGoverned == (Done(1) /\ Done(2)) =>
   /\ DOMAIN col[1] = DOMAIN col[2]
   /\ \A c \in DOMAIN col[1] : col[1][c] # col[2][c] => c \in MayChange(on[1], on[2])
=============================================================================
