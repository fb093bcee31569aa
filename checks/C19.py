"""C19: culling of faint objects: what a run leaves out, next to the same run without culling."""
from harness import env, check, pipeline as pl, tlc, world, orbits, fakesky as F
import os
import numpy as np
import pandas as pd

EPOCH, T0 = 60000.0, 60100.2
JDE = EPOCH + 2400000.5
FORMATS = ["COM", "KEP", "CART", "BCOM", "BKEP", "BCART"]
QS = {1: (1.3, 1.9, 1.985), 2: (2.015, 2.1), 3: (3.0, 6.5, 30.0)}
_aux = {}


def aux():
    if env.SCRATCH not in _aux:
        _aux[env.SCRATCH] = F.data_dir(os.path.join(env.SCRATCH, "aux"))
    return _aux[env.SCRATCH]


def models():
    """Models that brighten objects by up to a known amount."""
    from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
    from sorcha.activity.base_activity import AbstractCometaryActivity
    from sorcha.lightcurves.lightcurve_registration import update_lc_subclasses
    from sorcha.activity.activity_registration import update_activity_subclasses

    class Shift(AbstractLightCurve):
        def __init__(self, required_column_names=["shift"]):
            super().__init__(required_column_names)

        def compute(self, df):
            return df["shift"].to_numpy()

        def maxBrightness(self, df):
            return -np.abs(df["shift"])

        @staticmethod
        def name_id():
            return "verif_known_shift"

    class Blind(AbstractLightCurve):
        def __init__(self, required_column_names=["shift"]):
            super().__init__(required_column_names)

        def compute(self, df):
            return df["shift"].to_numpy()

        @staticmethod
        def name_id():
            return "verif_unknown_shift"

    class Coma(AbstractCometaryActivity):
        def __init__(self, required_column_names=["coma"]):
            super().__init__(required_column_names)

        def compute(self, df, observing_filters, rho, delta, alpha):
            df["trailedSourceMagTrue"] = df["trailedSourceMagTrue"] - df["coma"]
            return df

        def maxBrightness(self, df, observing_filters, rho, delta, alpha):
            return df["trailedSourceMagTrue"] - df["coma"]

        @staticmethod
        def name_id():
            return "verif_known_coma"

    class Dark(AbstractCometaryActivity):
        def __init__(self, required_column_names=["coma"]):
            super().__init__(required_column_names)

        def compute(self, df, observing_filters, rho, delta, alpha):
            df["trailedSourceMagTrue"] = df["trailedSourceMagTrue"] - df["coma"]
            return df

        @staticmethod
        def name_id():
            return "verif_unknown_coma"

    update_lc_subclasses()
    update_activity_subclasses()
    return Shift, Blind, Coma, Dark


def cent(x):
    return int(min(max(round(x * 100), -10 ** 8), 10 ** 8))


def err(r):
    return "" if r.error is None else ": ".join(map(str, r.error))[:300]


def field(jd, rng):
    """A field around the point opposite to the Sun."""
    u = F.observer(jd) - F.sun(jd)
    u /= np.linalg.norm(u)
    return float(np.degrees(np.arctan2(u[1], u[0])) % 360), float(np.degrees(np.arcsin(u[2])))


def apsis(q, e, ra, dec, jd, rng):
    """State at the epoch of an object seen at (ra, dec) in its perihelion at jd."""
    u = np.array([np.cos(np.radians(dec)) * np.cos(np.radians(ra)), np.cos(np.radians(dec)) * np.sin(np.radians(ra)), np.sin(np.radians(dec))])
    o = F.observer(jd) - F.sun(jd)
    b = o @ u
    dist = -b + np.sqrt(b * b - o @ o + q * q)
    r = o + dist * u
    t = np.cross(r, rng.normal(0, 1, 3))
    v = t / np.linalg.norm(t) * np.sqrt(F.GM * (1 + e) / q)
    e = EPOCH + 2400000.5
    r0, v0 = F.kepler(r, v, e - (jd - dist / F.C_AU_D))
    return np.concatenate([r0 + F.sun(e), v0 + F.SUNV])


def pair(ck, case, rng, visits, req, objs, fmt, known):
    """visits: (filter, depth steps); objs: (q class, magnitude steps per filter)."""
    survey = "DES" if rng.random() < .2 else "rubin_sim"
    w = world.World(survey)
    w.fmt = fmt
    w.args = dict(ar_data_path=aux())
    names = list(rng.permutation(list("ugrizy" if survey == "rubin_sim" else "grizY"))[:2])
    band = dict(g=str(names[0]), r=str(names[1]))
    main = "r" if req == ["r"] else ["g", "r"][int(rng.integers(2))]
    use = [main] + [f for f in req if f != main]
    unseen = rng.random() < .25  # one more filter asked for, without visits
    extra = [f for f in ("ugrizy" if survey == "rubin_sim" else "grizY") if f not in names][:1] if unseen else []
    ra, dec = field(F.jd_of(T0), rng)
    base = float(rng.uniform(21, 23))
    for k, (f, d) in enumerate(visits):
        w.visits.append(dict(id=7 * k + 1, mjd=T0 + .01 * k, filter=band[f], depth=base + d / 2, ra=ra, dec=dec, rot=float(rng.uniform(0, 360)), c=.9, k=5.0))
    depth = {}
    for f, d in visits:
        depth[f] = max(depth.get(f, -9e9), base + d / 2)
    lc, ca = None, None
    if known:
        r = rng.random()
        lc = "verif_known_shift" if r < .5 else None
        ca = "verif_known_coma" if r > .3 else None
    elif rng.random() < .25:
        lc, ca = [("verif_unknown_shift", None), (None, "verif_unknown_coma"), ("identity", None)][int(rng.integers(3))]
    hg = rng.random() < .5
    truth = {}
    for k, (qc, mags) in enumerate(objs):
        oid = ["o%d", "%06d", "K%d e" if w.survey == "x" else "K%dX"][k % 3] % k
        q = float(QS[qc][int(rng.integers(len(QS[qc])))])
        e = float(rng.uniform(.05, .95))
        if fmt.endswith(("COM", "CART")) and rng.random() < .2:
            e = float(rng.uniform(1.01, 1.6))
        st = apsis(q, e, (ra + float(rng.uniform(-1, 1)) / np.cos(np.radians(dec))) % 360, dec + float(rng.uniform(-1, 1)), F.jd_of(T0), rng)
        shift = float(rng.uniform(.3, 2.5)) * (1 if rng.random() < .7 else -1)
        coma = float(rng.uniform(0, 3))
        brightest = (-abs(shift) if lc in ("verif_known_shift", "verif_unknown_shift") else 0.0) - (coma if ca in ("verif_known_coma", "verif_unknown_coma") else 0.0)
        want = {f: base + m / 2 + float(rng.uniform(-.3, .3)) for f, m in mags.items()}
        geo = 5 * np.log10(q) + 5 * np.log10(abs(q - 1))
        H = {f: float(m - geo - brightest) for f, m in want.items()}
        phys = {"ObjID": oid, f"H_{band[main]}": H[main], **{f"{band[f]}-{band[main]}": H[f] - H[main] for f in use[1:]}, **{f"{x}-{band[main]}": -5.0 for x in extra}}
        if hg:
            phys["GS"] = .15
        w.objs[oid] = dict(orbit=orbits.row(oid, fmt, st, EPOCH), phys=phys, eph=[], cpx=dict(ObjID=oid, shift=shift, coma=coma) if lc or ca else None)
        truth[oid] = dict(q=int(round(q * 1000)), mag={f: cent(m) for f, m in want.items()})
    w.config = {"INPUT": dict(ephemerides_type="ar"), "FILTERS": dict(observing_filters=",".join([band[f] for f in use] + extra)), "PHASECURVES": dict(phase_function="HG" if hg else "none"),
                "SIMULATION": dict(ar_ang_fov="2.06", ar_fov_buffer="0.2", ar_picket="1", ar_obs_code="X05", ar_healpix_order="6"), "EXPERT": {}}
    if lc:
        w.config["LIGHTCURVE"] = dict(lc_model=lc)
    if ca:
        w.config["ACTIVITY"] = dict(comet_activity=ca)
    if survey == "rubin_sim":
        w.config["EXPERT"]["SNR_limit"] = 1.5
    else:
        w.config["EXPERT"]["mag_limit"] = min(depth.values()) + 1.5
    fe = world.FORMATS[int(rng.integers(3))]
    chunk = int(rng.choice([1, 3, 10, 1000]))
    order = {"phys", "complex"} if rng.random() < .5 else ()

    def go(brute, rng2):
        sc, _ = w.scenario(chunk=chunk, stats=None, order=order, rng=rng2)
        sc["config"]["EXPERT"]["brute_force"] = str(brute)
        sc["config"]["INPUT"]["eph_format"] = fe
        sc["args"]["output_ephemeris_file"] = "eph"
        sc["seed"] = 5
        return pl.run(sc)
    s = int(rng.integers(10 ** 6))
    a, b = go(False, np.random.default_rng(s)), go(True, np.random.default_rng(s))
    ea, eb = (table(os.path.join(r.dir, "eph" + (".h5" if fe == "hdf5" else ".csv")), fe) for r in (a, b))
    has_a, has_b = (set() if t is None else set(t["ObjID"]) for t in (ea, eb))
    tol = (30, 10) if fmt.startswith("B") else (1, 1)
    culled = 0
    for oid, t in truth.items():
        if oid in has_b:
            culled += oid not in has_a
            ck.event("TraceCull", dict(ev="obj", id=oid, q=t["q"], mag=t["mag"], depth={f: cent(d) for f, d in depth.items()}, req=use, culled=oid not in has_a, tq=tol[0], tm=tol[1]), case,
                     dict(fmt=fmt, chunk=chunk, lc=lc, ca=ca, survey=survey))
    ck.notes["objects_in_reach"] = ck.notes.get("objects_in_reach", 0) + len(has_b)
    ck.notes["culled"] = ck.notes.get("culled", 0) + culled
    book = world.RowBook(rtol=1e-12)
    ia = book.ids(ea)
    ib = [] if eb is None or ea is None else book.ids(eb[eb["ObjID"].isin(has_a)])
    rb = world.RowBook()
    fa, fb = a.out, b.out
    if fa is not None and fb is not None:  # the culling run keeps its estimate of the perihelion
        cols = [c for c in fb.columns if c in fa.columns]
        lost = [c for c in fb.columns if c not in fa.columns]
        fa, fb = (fa, fb) if lost else (fa[cols], fb[cols])
    da, db = rb.ids(fa), rb.ids(fb)
    ck.notes["detections"] = ck.notes.get("detections", 0) + len(db)
    ck.event("TraceCull", dict(ev="run", error=err(a) + err(b), a=ia, b=ib, da=da, db=db), case, dict(fmt=fmt, chunk=chunk, lc=lc, ca=ca, survey=survey))


def table(path, fmt):
    if not os.path.exists(path):
        return None
    if fmt == "hdf5":
        with pd.HDFStore(path, "r") as st:
            return st[st.keys()[0]].astype({"ObjID": str}) if st.keys() else None
    return pd.read_csv(path, sep="," if fmt == "csv" else r"\s+", dtype={"ObjID": str}, float_precision="round_trip")


def part(ck, k, scn, rounds):
    models()
    rng = np.random.default_rng([env.SEED, 19, k])
    for n, (visits, req, objs) in enumerate(scn):
        for r in range(rounds):
            fmt = FORMATS[(n + k + r) % 6]
            o = [objs[i] for i in rng.permutation(len(objs))]
            pair(ck, f"{k}-{n}-{r}", rng, visits, req, o, fmt, (n + r) % 2 == 0)


def collect(ck):
    F.install()
    import sorcha.sorcha, sorcha.des  # noqa
    scn, _ = tlc.scenarios("Cull", "CullGen.cfg")
    groups = {}
    for s in scn:
        key = (tuple((v["f"], v["d"]) for v in s["visits"]), tuple(sorted(s["req"])))
        o = (s["q"], tuple(sorted(s["mag"].items())))
        groups.setdefault(key, {})[o] = None
    jobs = []
    for (visits, req), objs in sorted(groups.items()):
        if not {f for f, _ in visits} & set(req):
            continue  # refused: nothing to observe
        objs = [(q, dict(m)) for q, m in sorted(objs)]
        jobs += [(list(visits), list(req), objs)] * 6  # once per orbit format
    ck.notes["object_classes"] = sum(map(len, groups.values()))
    ck.fan([(part, k, jobs[k::12], 8 if env.THOROUGH else 2) for k in range(12)])
    ck.mc("Cull")
    for v in ("anyq", "shallow", "nomargin", "some", "main", "reverse"):
        ck.mc("Cull", f"CullX_{v}.cfg", contrast=True)
    if env.THOROUGH:
        ck.mc("Cull", "CullBig.cfg")


if __name__ == "__main__":
    check.main("C19", collect, ["the third-party ephemeris libraries are replaced by an analytic sky", "only the culling of objects that could have been detected is judged: culling less is no violation",
                                "barycentric orbits: perihelion and magnitude to 0.03 au and 0.1 mag"])
