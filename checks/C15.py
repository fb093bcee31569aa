"""C15: the statistics table summarises exactly the reported detections."""
from harness import env, check, pipeline as pl, world as W, proj
import numpy as np

U = 10_000_000  # magnitudes in 1e-7 mag, phases in 1e-6 deg


def fix(x, u):
    return -1 if x is None or x != x else int(round(float(x) * u))


def flag(x):
    return "yes" if str(x) in ("True", "1", "1.0") else "no" if str(x) in ("False", "0", "0.0") else "-"


def event(det, st, err, mode):
    rows, out = [], []
    if det is not None:
        lk = det["object_linked"].tolist() if "object_linked" in det else [True] * len(det)
        dt = det["date_linked_MJD"].tolist() if "date_linked_MJD" in det else [-1] * len(det)
        rows = [dict(o=str(o), f=str(f), mag=fix(m, U), ph=fix(p, 10 ** 6), linked=flag(l) == "yes", date=fix(d, 1000))
                for o, f, m, p, l, d in zip(det["ObjID"], det["optFilter"], det["trailedSourceMag"], det["phase_deg"], lk, dt)]
    if st is not None:
        for _, r in st.iterrows():
            out.append(dict(o=str(r["ObjID"]), f=str(r["optFilter"]), n=int(r["number_obs"]), lo=fix(r["min_apparent_mag"], U), hi=fix(r["max_apparent_mag"], U),
                            med=fix(r["median_apparent_mag"], U), plo=fix(r["min_phase"], 10 ** 6), phi=fix(r["max_phase"], 10 ** 6),
                            linked=flag(r["object_linked"]) if "object_linked" in st else "-", date=fix(r["date_linked_MJD"], 1000) if "date_linked_MJD" in st else -1))
    return dict(ev="stats", rows=rows, st=out, mode=mode, error="" if err is None else f"{err[0]}: {err[1][:150]}")


def mode(sc):
    lf = sc["config"].get("LINKINGFILTER", {})
    return "off" if "ssp_number_tracklets" not in lf else "keep" if lf.get("drop_unlinked") == "False" else "drop"


def run(ck, case, sc, mem):
    if mem:
        r = pl.run(sc, return_only=True)
        det, st = r.out if isinstance(r.out, tuple) else (None, None)
        st = st.reset_index() if st is not None and len(st) else None
        det = det if det is not None and len(det) else None
        if r.error is None and not isinstance(r.out, tuple):
            ck.fail(case, "statistics-returned", str(type(r.out)))
    else:
        r = pl.run(sc)
        det, st = r.out, r.stats
    ck.event("TraceStats", event(det, st, r.error, mode(sc)), case)


def spread(w, rng):
    """Few objects, groups of every small size, values repeated."""
    for k, o in enumerate(w.objs.values()):
        for e in o["eph"]:
            e["range"] = pl.AU * float(rng.choice([.8, 1.0, 1.1, 1.25]))
            e["phase"] = float(rng.choice([1.0, 2.5, 30.0, 120.0]))
        if k % 3 == 1:
            o["eph"] = o["eph"][: int(rng.integers(1, 6))]
    return w


def flavour(ck, fl, rep, q):
    rng = np.random.default_rng([env.SEED, 15, rep, q])
    W.register_lc()
    w = spread(W.lsst(rng, 6, fl) if not fl.startswith("des") else W.des(rng, 6, fl[4:] or "basic"), rng)
    if fl == "linkkeep":  # half of the windows are missed at random
        w.config["LINKINGFILTER"]["ssp_detection_efficiency"] = ["0.5", "1.0", "0"][rep % 3]
    for j, chunk in enumerate((1, 2, 3, 4, 100)):
        k = 5 * q + j + rep
        sc, _ = w.scenario(chunk=chunk, order=("eph", "visits") if k % 2 else (), rng=rng)
        if fl == "effects":
            sc["config"]["EXPERT"]["randomization_on"] = "True"
        sc["config"]["OUTPUT"] = dict(output_format=["csv", "sqlite3"][k % 2])
        mem = (j + rep) % 5 == q % 5
        run(ck, f"{fl}/{chunk}/{'memory' if mem else 'file'}", sc, mem)


def nothing(ck):
    w = W.lsst(np.random.default_rng([env.SEED, 115]), 3, "basic")
    sc = w.scenario(chunk=2)[0]
    sc["config"]["EXPERT"]["mag_limit"] = "1"
    run(ck, "none/file", sc, False)
    run(ck, "none/memory", sc, True)


def collect(ck):
    import sorcha.sorcha, sorcha.des  # noqa
    fls = ("basic", "cuts", "effects", "linkkeep", "linkdrop", "linkcuts", "phase", "complex", "des", "des-discovery", "des-cuts")
    ck.fan([(flavour, fl, rep, q) for rep in range(30 if env.THOROUGH else 3) for q, fl in enumerate(fls)] + [(nothing,)])
    ck.mc("Stats", "StatsBig.cfg" if env.THOROUGH else None)
    ck.mc("Stats", "StatsX.cfg", contrast=True)


if __name__ == "__main__":
    check.main("C15", collect, ["magnitudes and phases are compared in units of 1e-7 mag and 1e-6 deg"])
