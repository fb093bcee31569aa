"""C07: switching an effect off leaves what it would change untouched."""
from harness import env, check, pipeline as pl, world as W, proj
from checks.C06 import sep, same
import itertools
import numpy as np

EFF = ["rand", "trail", "vig"]
KEYS = {"rand": "randomization_on", "trail": "trailing_losses_on", "vig": "vignetting_on"}
PAIRS = [("RA_deg", "RATrue_deg"), ("Dec_deg", "DecTrue_deg"), ("trailedSourceMag", "trailedSourceMagTrue"), ("PSFMag", "PSFMagTrue"), ("PSFMagTrue", "trailedSourceMagTrue"),
         ("PSFMag", "trailedSourceMag"), ("fiveSigmaDepth_mag", "fieldFiveSigmaDepth_mag")]


def fix8(x):
    """1e-8 mag; what is below the precision of the magnitudes themselves is nothing."""
    return [0 if abs(v) < 1e-12 else int(np.sign(v)) if abs(v) < 1e-8 else int(round(v * 1e8)) for v in np.asarray(x, float)]


def run(w, on, chunk, seed):
    sc, _ = w.scenario(chunk=chunk, stats=None)
    sc["seed"] = seed
    ex = sc["config"].setdefault("EXPERT", {})
    ex.update({KEYS[e]: str(e in on) for e in EFF} if w.survey == "rubin_sim" else {})
    ex["default_snr_cut"] = "False"
    return pl.run(sc)


def describe(w, on, r, want):
    e = dict(ev="run", on=sorted(on), error="" if r.error is None else f"{r.error[0]}: {r.error[1][:200]}", eq=[], trail=[], vig=[], speed=[], off=[], far=[], pull=[], n=0, want=want)
    if r.out is None:
        return e
    o = r.out
    v = {x["id"]: x for x in w.visits}
    vis = [v[i] for i in o["FieldID"]]
    e["n"] = len(o)
    e["eq"] = [list(p) for p in PAIRS if p[0] in o and p[1] in o and (o[p[0]] == o[p[1]]).all()]
    e["trail"] = fix8(o["PSFMagTrue"] - o["trailedSourceMagTrue"])
    e["vig"] = fix8(np.array([x["depth"] for x in vis]) - o["fiveSigmaDepth_mag"])
    rate = np.hypot(o["RARateCosDec_deg_day"], o["DecRate_deg_day"]).to_numpy() * np.array([x["exp"] for x in vis]) / np.array([x["seeingEff"] for x in vis])
    e["speed"] = [0 if x == 0 else 1 + int(x / .1) for x in rate]  # in steps, so that equal ones may go either way
    d = sep(o["RATrue_deg"], o["DecTrue_deg"], [x["ra"] for x in vis], [x["dec"] for x in vis])
    e["off"] = [int(x / .0005) for x in d]
    e["far"] = [bool(x > 1.0) for x in d]
    if "rand" in on:
        pulls = [(o["trailedSourceMag"] - o["trailedSourceMagTrue"]) / o["trailedSourceMagSigma"], (o["PSFMag"] - o["PSFMagTrue"]) / (o["PSFMagSigma"] if "trail" in on else o["trailedSourceMagSigma"]),
                 sep(o["RA_deg"], o["Dec_deg"], o["RATrue_deg"], o["DecTrue_deg"]) / o["astrometricSigma_deg"]]
        e["pull"] = [int(round(float(x) * 1000)) for p in pulls for x in p if np.isfinite(x)]
    return e


def world(ck, rep):
    rng = np.random.default_rng([env.SEED, 7, rep])
    centre = [(30., -20.), (0.2, 1.), (200., 84.9), (359.9, -40.)][rep % 4]
    w = W.rich(rng, filters=[list("rgi"), list("yug"), ["r"], list("izr")][rep % 4], centre=centre, phase=["HG", "none"][rep % 2], n=5, nvis=20, spread=2.4)
    seed = int(rng.integers(1, 10 ** 6))
    chunk = [1000, 2, 1, 3][rep % 4]
    requested = set(w.config["FILTERS"]["observing_filters"].split(","))
    f = {v["id"]: v["filter"] for v in w.visits}
    want = sum(f[e["field"]] in requested for o in w.objs.values() for e in o["eph"])
    got = {}
    for n in range(4):
        for on in itertools.combinations(EFF, n):
            r = run(w, on, chunk, seed)
            case = f"world-{rep % 4}/{'+'.join(on) or 'none'}"
            ck.event("TraceEffects", describe(w, on, r, want), case)
            if r.out is not None:
                got[on] = r.out.sort_values(["ObjID", "FieldID"], kind="stable").reset_index(drop=True)
    for a, b in itertools.combinations(got, 2):
        x, y = got[a], got[b]
        case = f"world-{rep % 4}/{'+'.join(a) or 'none'}/{'+'.join(b) or 'none'}"
        if len(x) != len(y):
            continue  # reported already
        changed = [c for c in x.columns if c in y.columns and not all(same(p, q) for p, q in zip(x[c].tolist(), y[c].tolist()))]
        ck.event("TraceEffects", dict(ev="pair", a=list(a), b=list(b), changed=changed, lost=sorted(set(x.columns) ^ set(y.columns))), case)


def des(ck, rep):
    rng = np.random.default_rng([env.SEED, 70, rep])
    w = W.rich(rng, "DES", n=4, nvis=15)
    requested = set(w.config["FILTERS"]["observing_filters"].split(","))
    f = {v["id"]: v["filter"] for v in w.visits}
    want = sum(f[e["field"]] in requested for o in w.objs.values() for e in o["eph"])
    ck.event("TraceEffects", describe(w, (), run(w, (), 2, 1), want), "des/none")


def collect(ck):
    import sorcha.sorcha, sorcha.des  # noqa
    ck.fan([(world, rep) for rep in range(60 if env.THOROUGH else 8)] + [(des, rep) for rep in range(4)])
    ck.mc("Effects")
    for v in ("vigdepth", "psfdraw"):
        ck.mc("Effects", f"EffectsX_{v}.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C07", collect, ["losses are known to 1e-8 mag"])
