"""C28: brightness, losses and uncertainties follow the documented laws."""
from harness import env, check, pipeline as pl, tlc
import numpy as np
import pandas as pd

NAMES = dict(HG=["GS"], HG12=["G12"], HG1G2=["G1", "G2"], linear=["S"], none=[])
DIRS = {1: (.6, .8), 2: (1., 0.), 3: (-.8, .6), 4: (0., -1.), 5: (-1., 0.)}
RAYS0 = 623885
MAIN = dict(rubin_sim=["rg", "iz", "yu", "gr", "ui"], DES=["rg", "iz", "Yg", "gr", "zi"])


def rand_src(rng):
    """A source the model's walk does not reach."""
    f = str(rng.choice(["r", "g"]))

    def one():
        a = int(rng.integers(0, 900))
        return [a, int(rng.integers(0, 1000 - a))]
    return dict(kind=0, H=int(rng.integers(4, 24) * 1000000 + rng.integers(0, 1000000)), col=dict(r=0, g=int(rng.integers(-900000, 900000))), par=dict(r=one(), g=one()), d=int(rng.integers(-60, 80)),
                r=int(rng.integers(-20, 80)), al=int(rng.choice([0, 1, 2, 4, 30, 60])), f=f, k=int(rng.choice([0, 1, 1, 3, 10])), dir=int(rng.integers(1, 6)), exp=int(rng.choice([5, 15, 30, 60])),
                se=int(rng.integers(500, 1300)), sg=int(rng.integers(500, 1300)), off=int(rng.integers(0, 26000)) if rng.random() < .6 else int(rng.choice([0, 100, 6600, 6700, 13001, 17555, 17600, 18111, 19999, 20000, 24000])) + int(rng.integers(0, 100)),
                pole=bool(rng.random() < .4), depth=int(rng.integers(22000000, 25000000)), near=bool(rng.random() < .6))


def at(ra, dec, off, th):
    """The point at an angle off (deg) from (ra, dec) towards position angle th."""
    a, d, o = np.radians([ra, dec, off])
    sd = np.sin(d) * np.cos(o) + np.cos(d) * np.sin(o) * np.cos(th)
    dec2 = np.arcsin(sd)
    y, x = np.sin(th) * np.sin(o) * np.cos(d), np.cos(o) - np.sin(d) * sd
    return float(np.degrees(a + np.arctan2(y, x)) % 360), float(np.degrees(dec2))


def noise(x, sig, most):
    """Both ratios as whole numbers in a unit that suits them (u = 0: out of the range judged)."""
    n = 10 ** (sig / 2.5) - 1
    u = next((u for u in (10 ** 6, 10 ** 4, 10 ** 3) if x * u <= most), 0)
    if not u or not np.isfinite(n) or x * u < 1:
        return dict(u=0, x=0, n=0)
    return dict(u=u, x=int(round(x * u)), n=int(min(round(n * u), 46000)))


def go(ck, fn, on, survey, srcs, own, chunk, case, rep):
    rng = np.random.default_rng([env.SEED, 28, rep])
    visits, eph, phys, objs = [], [], [], []
    F = dict(zip("rg", MAIN[survey][rep % 5]))  # the model's filters: the main one and another
    same = {}  # sources of the same brightness and parameters may be one object seen again
    obj = [f"o{same.setdefault((s['H'], repr(s['col']), repr(s['par'])), i) if rep % 3 else i}" for i, s in enumerate(srcs)]
    for i, s in enumerate(srcs):
        ra, dec = [(0.0003, 89.1), (359.97, -33.), (0.4, 5.), (210., -88.8)][int(rng.integers(4))] if s["pole"] else (float(rng.uniform(5, 355)), float(rng.uniform(-60, 60)))
        mjd = 60000.2 + i * 1e-3
        visits.append(dict(id=i, mjd=mjd, filter=F[s["f"]], depth=s["depth"] / 1e6, ra=ra, dec=dec, exp=float(s["exp"]), vis=float(s["exp"]) + 4, seeing=s["sg"] / 1000, seeingEff=s["se"] / 1000, rot=0.))
        x, y = at(ra, dec, s["off"] / 1e4, float(rng.uniform(0, 2 * np.pi)))
        v = s["k"] * .24
        R = 10 ** (s["r"] / 50) * pl.AU
        u = rng.normal(size=3)
        u = u / np.linalg.norm(u) * R
        eph.append(dict(obj=obj[i], field=i, mjd=mjd, ra=x, dec=y, rarate=v * DIRS[s["dir"]][0], decrate=v * DIRS[s["dir"]][1], range=10 ** (s["d"] / 50) * pl.AU, sun=tuple(map(float, u)), phase=float(s["al"])))
        if obj[i] != f"o{i}":
            continue
        p = {"ObjID": obj[i], "H_" + F["r"]: s["H"] / 1e6}
        if own is not None:
            p[F["g"] + "-" + F["r"]] = s["col"]["g"] / 1e6
        for j, n in enumerate(NAMES[fn]):
            if own:
                p.update({n + F[f]: s["par"][f][j] / 1000 for f in "rg"})
            else:
                p[n] = s["par"][s["f"]][j] / 1000
        phys.append(p)
        objs.append(dict(id=obj[i]))
    order = rng.permutation(len(objs))
    eph = sorted(eph, key=lambda e: [int(k) for k in order].index(next(j for j, o in enumerate(objs) if o["id"] == e["obj"]))) if rng.random() < .5 else eph
    sc = dict(survey=survey, objects=[objs[i] for i in order], phys=pd.DataFrame(phys).iloc[rng.permutation(len(phys))], visits=visits, eph=eph,
              config=dict(INPUT=dict(size_serial_chunk=str(chunk)), FILTERS=dict(observing_filters=F["r"] if own is None else F["r"] + "," + F["g"]), PHASECURVES=dict(phase_function=fn)))
    if survey == "rubin_sim":
        sc["config"]["EXPERT"] = dict(trailing_losses_on=str("trail" in on), vignetting_on=str("vig" in on))
    r = pl.run(sc, return_only=True)
    base = dict(fn=fn, on=sorted(on), des=survey == "DES")
    if r.error is not None or r.out is None or sorted(zip(r.out["FieldID"].astype(int), r.out["ObjID"])) != list(enumerate(obj)):
        ck.event("TraceLight", dict(base, error=f"{r.error}: {0 if r.out is None else len(r.out)} rows of {len(srcs)}"), case)
        return
    out = r.out.set_index("FieldID")
    for i, s in enumerate(srcs):
        o = out.loc[i]
        m, hf = float(o["trailedSourceMagTrue"]), float(o["H_filter"])
        e = dict(base, src=s, error="", hf=int(round(hf * 1e6)), mag=int(round(m * 1e6)), share=0, det=0, rays=0, star=dict(u=0, x=0, n=0), trailed=dict(u=0, x=0, n=0), place=0)
        e["share"] = int(min(round(10 ** (-.4 * (m - hf - .1 * (s["d"] + s["r"]))) * 1e6), 2 * 10 ** 9))
        if "PSFMagTrue" in o:
            e["det"] = int(min(round(10 ** (.8 * (o["PSFMagTrue"] - m)) * 1e6), 2 * 10 ** 9))
        e["rays"] = int(min(round(10 ** (-.4 * (s["depth"] / 1e6 - o["fiveSigmaDepth_mag"])) * RAYS0), 10 ** 9))
        if survey == "rubin_sim":
            deep = float(o["fiveSigmaDepth_mag"])
            if o["PSFMagTrue"] - deep <= 2:
                e["star"] = noise(10 ** (.4 * (o["PSFMagTrue"] - deep)), float(o["PSFMagSigma"]), 46000)
            if m - deep <= 2:
                e["trailed"] = noise(10 ** (.4 * (m - deep)), float(o["trailedSourceMagSigma"]), 15000)
            e["place"] = int(min(round(float(o["astrometricSigma_deg"]) * 3.6e8), 10 ** 8))
        ck.event("TraceLight", e, case)


def tasks(gen):
    walks = {}
    for g in gen:
        walks.setdefault(g["fn"], []).append(g["s"])
    rng = np.random.default_rng([env.SEED, 2800])
    out, rep = [], 0
    everything = ["trail", "vig"]
    for fn, w in sorted(walks.items()):
        w = [w[i] for i in rng.permutation(len(w))]
        n = len(w) if env.THOROUGH else 420
        extra = lambda k: [near(rand_src(rng), fn) for _ in range(k)]  # noqa
        plan = [(everything, "rubin_sim", w[:n] + extra(120), True, 10000), ([["trail"], ["vig"], []][rep % 3], "rubin_sim", w[-150:] + extra(60), True, 97), ([], "DES", w[n // 2:n // 2 + 100] + extra(40), True, 10000)]
        # one set of parameters for all filters; one filter only
        same = lambda s: dict(s, par={f: s["par"][s["f"]] for f in "rg"})  # noqa
        plan.append((everything, "rubin_sim", [same(s) for s in w[200:300] + extra(30)], False, 50))
        red = [s for s in w + extra(60) if s["f"] == "r"]
        plan.append((everything, ["rubin_sim", "DES"][rep % 2], [same(s) for s in red[-90:]], None, 10000))
        for on, sv, srcs, own, chunk in plan:
            on = on if sv == "rubin_sim" else []
            out.append((go, fn, on, sv, srcs, own, chunk, f"{fn}/{sv}/{'+'.join(on) or 'none'}/{dict([(True, 'own'), (False, 'shared'), (None, 'one')])[own]}", rep))
            rep += 1
    return out


def near(s, fn):
    """Most random sources are moved close to the limit, where the noise matters."""
    if s.pop("near"):
        s = dict(s, H=s["depth"] - 100000 * (s["d"] + s["r"]) - s["col"][s["f"]] - (s["par"][s["f"]][0] * 1000 * s["al"] if fn == "linear" else 0) - int(s["H"] % 5000000) + 1000000)
    return s


def collect(ck):
    gen, r = tlc.scenarios("Light", "LightGen.cfg")
    ck.notes["scenarios from the model"] = len(gen)
    ck.fan(tasks(gen))
    ck.mc("Light", "LightBig.cfg" if env.THOROUGH else "Light.cfg")
    for v in ("once", "mainphase", "rate", "seeing", "psf", "deeper", "flat"):
        ck.mc("Light", f"LightX_{v}.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C28", collect, ["phase curves are compared at six angles where the published basis functions have tabulated values", "noise is judged up to two magnitudes below the limit"])
