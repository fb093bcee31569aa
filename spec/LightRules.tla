----------------------------- MODULE LightRules -----------------------------
(* How bright a source is, what its motion and its place in the field cost, and how well it is measured: the laws the documentation gives.
   Whole numbers: magnitudes in 1e-6 mag, fluxes and flux ratios in 1e-6, distances as k where 10^(k/50) AU (a tenth of a magnitude each), phase angles in degrees,
   motion in hundredths of an arcsecond a second, seeing in mas, exposures in s, offsets from the centre in 1e-4 degree, phase parameters in 1e-3.
   src: H, col (filter -> colour against the main filter), par (filter -> parameters), d, r, al, f, k, dir, exp, se, sg (effective, geometric seeing), off, depth  *)
EXTENDS Integers, Sequences
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
MulDiv(a, b, c) == (a \div c) * b + ((a % c) * b) \div c
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46341)
(* ---- apparent magnitude ---- *)
Angles == {0, 1, 2, 4, 30, 60}
\* basis functions of the phase curves at these angles (Bowell et al. 1989; Muinonen et al. 2010: the knots and linear parts of their splines)
Phi(i, al) == CASE al = 0 -> 1000000
                [] al = 1 -> <<966667, 990000, 577350>>[i]
                [] al = 2 -> <<933333, 980000, 421440>>[i]
                [] al = 4 -> <<866667, 960000, 231740>>[i]
                [] al = 30 -> <<334860, 628840, 0>>[i]
                [] al = 60 -> <<134106, 317550, 0>>[i]
Bowell(i, al) == CASE al = 0 -> 1000000
                   [] al = 1 -> <<878738, 970946>>[i]
                   [] al = 2 -> <<790769, 950631>>[i]
                   [] al = 4 -> <<670585, 925606>>[i]
                   [] al = 30 -> <<234145, 687866>>[i]
                   [] al = 60 -> <<94800, 385312>>[i]
\* the share of the light at zero phase, in 1e-6
Share(fn, p, al) ==
  CASE fn = "HG" -> ((1000 - p[1]) * (Bowell(1, al) \div 10) + p[1] * (Bowell(2, al) \div 10)) \div 100
    [] fn = "HG1G2" -> (p[1] * (Phi(1, al) \div 10) + p[2] * (Phi(2, al) \div 10) + (1000 - p[1] - p[2]) * (Phi(3, al) \div 10)) \div 100
    [] fn = "HG12" -> LET g1 == MulDiv(p[1], 842936, 1000)  \* Penttilae et al. 2016, in 1e-6
                          g2 == MulDiv(1000 - p[1], 535134, 1000)
                          part(g, v) == ((g \div 1000) * v) \div 1000 + ((g % 1000) * (v \div 1000)) \div 1000
                      IN part(g1, Phi(1, al)) + part(g2, Phi(2, al)) + part(1000000 - g1 - g2, Phi(3, al))
    [] OTHER -> 1000000
HFilter(s) == s.H + s.col[s.f]
Far(s) == 100000 * (s.d + s.r)
Straight(fn, s) == IF fn = "linear" THEN s.par[s.f][1] * 1000 * s.al ELSE 0
(* ---- trailing: the flux ratio squared, 10^(0.8 loss) ---- *)
Smear(s, see) == (s.k * s.exp * 10000) \div see              \* trail over seeing, in 1e-3
Loss(a, b, x) == 1000000 + MulDiv(MulDiv(x * x, a, 1000), 10000, (1000000 + b * x) \div 100)
Detect(s) == Loss(420, 3, Smear(s, s.se))
Trail(s) == Loss(761, 1162, Smear(s, s.sg))
(* ---- vignetting: rays let through, in 1e-6, every 0.02 degree ---- *)
RaysAt == [i \in 1..33 |-> 623885] \o
  << 623822, 623759, 623632, 623442, 623316, 623000, 622494, 622367, 621861, 621671, 621292, 621039, 620659, 620216, 619963, 619394, 619204, 618635, 618319, 618066, 617496, 617117,
     616737, 616168, 615535, 614840, 614207, 613385, 612436, 611614, 610602, 609716, 608957, 608071, 606996, 605668, 604972, 603770, 602758, 601177, 599595, 598140, 595673, 594282,
     592447, 590613, 588526, 586312, 584287, 582137, 580113, 578025, 576064, 573344, 570561, 563730, 545322, 521412, 492757, 460624, 429565, 404959, 383073, 356190, 317161, 279777,
     241824, 201974 >>
Rays(off) == LET i == off \div 200 IN IF i >= 100 THEN RaysAt[101] ELSE RaysAt[i + 1] + ((RaysAt[i + 2] - RaysAt[i + 1]) * (off % 200)) \div 200
(* ---- noise: x the flux at the limit over the flux of the source, n the noise over the signal, both in 1/u (u = 10^3, 10^4 or 10^6) ---- *)
Noise2(x, u) == x * (u \div 1000) + ((x * x) \div 1000) * 39
\* the trail makes the source as noisy as a fainter one
Dimmed(x, t) == (x * ISqrt(Min2(t, 21000000) * 100)) \div 10000
Blur(sg, n, u) == (60 * sg * n) \div u    \* random part of the position, in 0.01 mas
=============================================================================
