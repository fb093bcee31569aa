----------------------------- MODULE TraceLight -----------------------------
(* One candidate as it left the pipeline. src, fn, on (effects), des; what was measured: hf (magnitude in the visit's filter), mag (apparent), share (light left by the phase, 1e-6),
   det (10^(0.8 trailing loss), 1e-6), rays (rays let through, 1e-6); noise: for the star-like and for the trailed magnitude u (0: not judged), x, n (see LightRules); place (position
   uncertainty, 0.01 mas).                                                                                                                                          *)
EXTENDS TraceBase, LightRules, FiniteSets
S(x) == { x[i] : i \in DOMAIN x }
Near(a, b, tol) == Abs(a - b) <= tol
Whole(s, see) == (s.k * s.exp * 10000) % see = 0
\* a ratio of the law with parameters a, b whose smear is known to 1e-3
Within(t, a, b, s, see) == LET x == Smear(s, see)
                               lo == Loss(a, b, x)
                               hi == Loss(a, b, IF Whole(s, see) THEN x ELSE x + 1)
                               tol == 10 + (hi - 1000000) \div 5000
                           IN lo - tol <= t /\ t <= hi + tol
Quiet(v, x) == LET law == Noise2(x, v.u)
               IN Near(v.n * v.n, law, 3 * v.n + v.u \div 1000 + x \div 10 + law \div 2000 + 80)
TrailOf(s, on) == IF "trail" \in on THEN Trail(s) ELSE 1000000
Clauses(e) ==
  LET s == e.src
      on == S(e.on)
      y == Dimmed(e.trailed.x, TrailOf(s, on))
      blur == Blur(s.sg, e.trailed.n, e.trailed.u)
  IN << <<"no-error", e.error = "">>,
        <<"magnitude-in-the-filter", Near(e.hf, HFilter(s), 2)>>,
        <<"inverse-square-and-linear-phase", e.fn \in {"none", "linear"} => Near(e.mag, HFilter(s) + Far(s) + Straight(e.fn, s), 3)>>,
        <<"phase-curve", (e.fn # "linear") => Near(e.share, Share(e.fn, s.par[s.f], s.al), 40)>>,
        <<"detection-loss", IF "trail" \in on THEN Within(e.det, 420, 3, s, s.se) ELSE e.det = 1000000>>,
        <<"vignetting", IF "vig" \in on THEN Near(e.rays, Rays(s.off), 5) ELSE Near(e.rays, 623885, 1)>>,
        <<"noise-of-the-star-like-magnitude", e.star.u > 0 => Quiet(e.star, e.star.x)>>,
        <<"noise-of-the-trailed-magnitude", e.trailed.u > 0 => Quiet(e.trailed, y)>>,
        <<"position-uncertainty", e.trailed.u > 0 => Near(e.place, blur + 1000000 \div (e.place + blur), 4 + e.place \div 1000 + (60 * s.sg) \div e.trailed.u)>> >>
TraceInit == BaseInit
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN Advance(Failing(IF e.error # "" THEN << <<"no-error", FALSE>> >> ELSE Clauses(e)))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
=============================================================================
