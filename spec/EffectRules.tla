----------------------------- MODULE EffectRules -----------------------------
(* Which quantities of a detection each optional effect governs.  "rand": randomization of positions and magnitudes, "trail": trailing losses,
   "vig": vignetting.                                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Effects == { "rand", "trail", "vig" }
Measured == { "RA_deg", "Dec_deg", "trailedSourceMag", "PSFMag" }
Depth == { "fiveSigmaDepth_mag" }
Quality == { "astrometricSigma_deg", "trailedSourceMagSigma", "PSFMagSigma", "SNRPSFMag", "SNRTrailedSourceMag" }
\* what turning effect x on or off may change; rand: whether measured values are drawn from the uncertainties
Governed(x, rand) == CASE x = "rand" -> Measured
                       [] x = "trail" -> { "PSFMagTrue", "PSFMag" } \cup Quality \cup (IF rand THEN Measured ELSE {})
                       [] x = "vig" -> Depth \cup Quality \cup (IF rand THEN Measured ELSE {})
Diff(A, B) == (A \ B) \cup (B \ A)
MayChange(A, B) == UNION { Governed(x, "rand" \in A \cup B) : x \in Diff(A, B) }
\* pairs of columns that are equal while an effect is off
Equal(A) == (IF "rand" \in A THEN {} ELSE { <<"RA_deg", "RATrue_deg">>, <<"Dec_deg", "DecTrue_deg">>, <<"trailedSourceMag", "trailedSourceMagTrue">>, <<"PSFMag", "PSFMagTrue">> })
            \cup (IF "trail" \in A THEN {} ELSE { <<"PSFMagTrue", "trailedSourceMagTrue">>, <<"PSFMag", "trailedSourceMag">> })
            \cup (IF "vig" \in A THEN {} ELSE { <<"fiveSigmaDepth_mag", "fieldFiveSigmaDepth_mag">> })
=============================================================================
