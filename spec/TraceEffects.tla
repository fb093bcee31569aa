----------------------------- MODULE TraceEffects -----------------------------
(* Runs with different effects over the same candidates.
   event run: on (effects), eq (pairs of columns equal in every row), trail, vig (loss of each row: magnitudes in 1e-8), speed (rank of the rate times the exposure over the
   seeing), off (rank of the distance from the field centre), still, ties: rows where nothing moves; n rows, error, want (rows expected).
   event pair: a, b (effects of two runs), changed (columns not equal in every row), lost (columns only one of them has).                       *)
EXTENDS TraceBase, EffectRules
S(x) == { x[i] : i \in DOMAIN x }
Pairs(x) == { <<x[i][1], x[i][2]>> : i \in DOMAIN x }
RunClauses(e) ==
  LET A == S(e.on)
      D == DOMAIN e.trail
  IN << <<"no-error", e.error = "">>,
        <<"every-candidate-once", e.n = e.want>>,
        <<"off-means-equal", e.error = "" => Equal(A) \subseteq Pairs(e.eq)>>,
        <<"trailing-never-brightens", \A i \in D : e.trail[i] >= 0>>,
        <<"no-trailing-loss-when-off", "trail" \notin A => \A i \in D : e.trail[i] = 0>>,
        <<"no-trailing-loss-at-rest", \A i \in D : e.speed[i] = 0 => e.trail[i] = 0>>,
        <<"trailing-loss-when-moving", "trail" \in A => \A i \in D : e.speed[i] > 20 => e.trail[i] > 0>>,
        <<"faster-loses-more", "trail" \in A => \A i, j \in D : e.speed[i] < e.speed[j] => e.trail[i] <= e.trail[j]>>,
        <<"vignetting-never-deepens", \A i \in DOMAIN e.vig : e.vig[i] >= 0>>,
        <<"no-vignetting-when-off", "vig" \notin A => \A i \in DOMAIN e.vig : e.vig[i] = 0>>,
        <<"further-out-loses-more", "vig" \in A => \A i, j \in DOMAIN e.vig : e.off[i] < e.off[j] => e.vig[i] <= e.vig[j]>>,
        <<"near-the-edge-loses", "vig" \in A => \A i \in DOMAIN e.vig : e.far[i] => e.vig[i] > 0>>,
        <<"noise-within-uncertainty", \A i \in DOMAIN e.pull : -8000 <= e.pull[i] /\ e.pull[i] <= 8000>>,
        <<"noise-when-on", ("rand" \in A /\ e.n > 20) => Cardinality({ i \in DOMAIN e.pull : e.pull[i] # 0 }) * 2 > Len(e.pull)>> >>
PairClauses(e) == LET M == MayChange(S(e.a), S(e.b)) IN
  << <<"only-governed-columns-change", S(e.changed) \subseteq M>>, <<"same-columns", e.lost = <<>>>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                CASE e.ev = "run" -> Advance(Failing(RunClauses(e)))
                  [] e.ev = "pair" -> Advance(Failing(PairClauses(e)))
                  [] OTHER -> Advance({"unknown-event"})
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
